SPECIFICATION Spec
CONSTANTS
  PairKinds <- AllSp
  MaxPairs = 1
  MaxRegs = 0
  Hostile = TRUE
  Depth = 0
  Cfgs <- OneCfg
INVARIANTS NonInterference KeySeparation KeyAgreement
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
