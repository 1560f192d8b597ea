SPECIFICATION Spec
CONSTANTS
  Pairs = 2
  MaxDev = 1
  Record = FALSE
  Ordered = FALSE
  Rich = FALSE
  FreeHist = FALSE
  Cfgs <- FewCfgs
INVARIANTS  Agreement Binding Authentic Roles Decoy NoKey NonNeutral
CHECK_DEADLOCK FALSE
