SPECIFICATION Spec
CONSTANTS Pairs = 2
INVARIANTS Secret Control Emit
CHECK_DEADLOCK FALSE
