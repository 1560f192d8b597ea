SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Kinds = {"client", "server"}
INVARIANTS Fresh Pumped Emit
CHECK_DEADLOCK FALSE
