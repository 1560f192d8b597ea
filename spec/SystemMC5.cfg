SPECIFICATION Spec
CONSTANTS
  PairKinds <- OneAu
  MaxPairs = 1
  MaxRegs = 2
  Hostile = TRUE
  Depth = 0
  Cfgs <- TwoCfgs
INVARIANTS NonInterference KeySeparation KeyAgreement
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
