INIT Init
NEXT Next
CONSTANTS
  N = 719
  G = 11
  Small = {7}
  As <- Z12
  Bs <- Z60
  Vals <- VFew
INVARIANTS Emit Agreement Legal
CHECK_DEADLOCK FALSE
