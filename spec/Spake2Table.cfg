INIT Init
NEXT Next
INVARIANTS Emit Total
CHECK_DEADLOCK FALSE
