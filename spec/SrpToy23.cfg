INIT Init
NEXT Next
CONSTANTS
  N = 23
  G = 5
  Small = {0, 1, 2, 7, 22}
  As <- Zn
  Bs <- Zn
  Vals <- V3
INVARIANTS Emit Agreement Legal
CHECK_DEADLOCK FALSE
