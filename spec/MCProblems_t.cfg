SPECIFICATION PSpec
CONSTANTS
  Radius = 3
  MaxCons = 3
  Some = 1
INVARIANTS Convex Emit
CHECK_DEADLOCK FALSE
