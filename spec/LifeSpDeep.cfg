SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Kinds = {"spake"}
INVARIANTS Fresh Pumped Emit
CHECK_DEADLOCK FALSE
