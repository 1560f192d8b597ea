SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Emit Consistent
CHECK_DEADLOCK FALSE
