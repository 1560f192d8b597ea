INIT Init
NEXT Next
CONSTANT Deep = TRUE
INVARIANTS Emit Laws
CHECK_DEADLOCK FALSE
