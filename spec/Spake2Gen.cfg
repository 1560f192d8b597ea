SPECIFICATION Spec
CONSTANTS
  Sids <- GenSids
  MaxDev = 1
  Record = TRUE
  Ordered = TRUE
  Rich = TRUE
INVARIANTS Emit Agreement Binding Acceptance
CHECK_DEADLOCK FALSE
