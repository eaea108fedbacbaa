CONSTANTS
  Mode = "dc"
  Limits = {0, 1, 2, 3, 4, 9}
  MaxAsks = 4
SPECIFICATION Spec
INVARIANTS Properties Emit
PROPERTY AlwaysEnds
CHECK_DEADLOCK FALSE
