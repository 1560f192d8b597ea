SPECIFICATION Spec
CONSTANTS Wide = "some"
INVARIANTS Answers Undisturbed Justified Ends Emit
CHECK_DEADLOCK FALSE
