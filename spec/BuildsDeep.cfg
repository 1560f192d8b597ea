CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANTS Everything SameOutcome Complete Stops
CHECK_DEADLOCK FALSE
