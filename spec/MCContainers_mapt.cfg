SPECIFICATION MSpec
CONSTANTS
  Depth = 4
  Keys = {1, 2}
  Vals = {1, 2, 3, 4}
  Kind = "map"
INVARIANTS Types Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
