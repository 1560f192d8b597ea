SPECIFICATION Spec
CONSTANTS
  PairKinds <- SpSr
  MaxPairs = 2
  MaxRegs = 1
  Hostile = FALSE
  Depth = 0
  Cfgs <- OneCfg
INVARIANTS NonInterference KeySeparation KeyAgreement
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
