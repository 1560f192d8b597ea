SPECIFICATION Spec
CONSTANTS
  Clients <- GenC
  Servers <- GenS
  MaxDev = 2
  Record = FALSE
  Ordered = FALSE
  Rich = FALSE
INVARIANTS  Agreement Binding Authentic Legal
CHECK_DEADLOCK FALSE
