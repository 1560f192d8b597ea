SPECIFICATION Spec
CONSTANTS MaxLen = 2
          Kinds = {"client", "server"}
INVARIANTS Fresh Pumped Emit
CHECK_DEADLOCK FALSE
