SPECIFICATION Spec
CONSTANTS
  Q = 7
  Record = TRUE
INVARIANTS Emit Agreement Binding
CHECK_DEADLOCK FALSE
