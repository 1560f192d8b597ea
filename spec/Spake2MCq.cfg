SPECIFICATION Spec
CONSTANTS
  Sids <- GenSids
  MaxDev = 1
  Record = FALSE
  Ordered = FALSE
  Rich = FALSE
INVARIANTS Agreement Binding Acceptance Blinded OneGuess
CHECK_DEADLOCK FALSE
