SPECIFICATION Spec
CONSTANTS
  Clients <- GenC
  Servers <- GenS
  MaxDev = 1
  Record = TRUE
  Ordered = TRUE
  Rich = TRUE
INVARIANTS Emit Agreement Binding Authentic Legal
CHECK_DEADLOCK FALSE
