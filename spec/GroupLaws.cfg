INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANTS Emit Laws
CHECK_DEADLOCK FALSE
