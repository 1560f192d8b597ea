SPECIFICATION Spec
CONSTANTS
  PairKinds <- OneSr
  MaxPairs = 1
  MaxRegs = 2
  Hostile = TRUE
  Depth = 0
  Cfgs <- OneCfg
INVARIANTS NonInterference KeySeparation KeyAgreement
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
