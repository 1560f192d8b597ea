SPECIFICATION Spec
CONSTANTS Wide = "all"
INVARIANTS Answers Undisturbed Justified Ends Emit
CHECK_DEADLOCK FALSE
