SPECIFICATION PSpec
CONSTANTS
  Radius = 3
  MaxCons = 2
  Some = 3
INVARIANTS Convex Emit
CHECK_DEADLOCK FALSE
