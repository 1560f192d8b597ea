SPECIFICATION Spec
INVARIANTS Complete
CHECK_DEADLOCK FALSE
