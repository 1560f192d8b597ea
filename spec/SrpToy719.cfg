INIT Init
NEXT Next
CONSTANTS
  N = 719
  G = 11
  Small = {1, 7}
  As <- Z30
  Bs <- Z60
  Vals <- V3
INVARIANTS Emit Agreement Legal
CHECK_DEADLOCK FALSE
