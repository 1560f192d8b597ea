SPECIFICATION Spec
CONSTANTS
  PairKinds <- AllKinds
  MaxPairs = 6
  MaxRegs = 6
  Hostile = TRUE
  Depth = 90
  Cfgs <- AllCfgs
INVARIANTS Emit
CHECK_DEADLOCK FALSE
