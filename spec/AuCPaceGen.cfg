SPECIFICATION Spec
CONSTANTS
  Pairs = 2
  MaxDev = 1
  Record = TRUE
  Ordered = TRUE
  Rich = TRUE
  FreeHist = FALSE
  Cfgs <- GenCfgs
INVARIANTS Emit Agreement Binding Authentic Roles Decoy NoKey NonNeutral
CHECK_DEADLOCK FALSE
