SPECIFICATION Spec
CONSTANTS MaxLen = 2
          Kinds = {"spake"}
INVARIANTS Fresh Pumped Emit
CHECK_DEADLOCK FALSE
