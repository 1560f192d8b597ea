SPECIFICATION Spec
CONSTANTS
  Q = 5
  Record = TRUE
INVARIANTS Emit Agreement Binding
CHECK_DEADLOCK FALSE
