SPECIFICATION Spec
CONSTANTS
  Pairs = 1
  MaxDev = 1
  Record = TRUE
  Ordered = TRUE
  Rich = FALSE
  FreeHist = TRUE
  Cfgs <- AllCfgs
INVARIANTS Emit Agreement Binding Authentic Roles Decoy NoKey NonNeutral
CHECK_DEADLOCK FALSE
