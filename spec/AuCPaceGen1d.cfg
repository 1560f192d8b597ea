SPECIFICATION Spec
CONSTANTS
  Pairs = 1
  MaxDev = 2
  Record = TRUE
  Ordered = TRUE
  Rich = FALSE
  FreeHist = FALSE
  Cfgs <- GenCfgs
INVARIANTS Emit Agreement Binding Authentic Roles Decoy NoKey NonNeutral
CHECK_DEADLOCK FALSE
