SPECIFICATION Spec
CONSTANTS
  Clients <- GenC
  Servers <- GenS
  MaxDev = 1
  Record = FALSE
  Ordered = FALSE
  Rich = FALSE
INVARIANTS  Agreement Binding Authentic Legal
CHECK_DEADLOCK FALSE
