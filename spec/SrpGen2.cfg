SPECIFICATION Spec
CONSTANTS
  Clients <- GenC
  Servers <- GenS
  MaxDev = 2
  Record = TRUE
  Ordered = TRUE
  Rich = FALSE
INVARIANTS Emit Agreement Binding Authentic Legal
CHECK_DEADLOCK FALSE
