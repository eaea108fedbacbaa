CONSTANTS
  Mode = "feas"
  Limits = {0, 1, 2, 3, 9}
  MaxAsks = 3
SPECIFICATION Spec
INVARIANTS Properties Emit
PROPERTY AlwaysEnds
CHECK_DEADLOCK FALSE
