SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Emit Consistent
CHECK_DEADLOCK FALSE
