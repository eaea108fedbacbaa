SPECIFICATION MSpec
CONSTANTS
  Depth = 3
  Keys = {1, 2}
  Vals = {1, 2}
  Kind = "set"
INVARIANTS Types Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
