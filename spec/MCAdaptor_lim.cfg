CONSTANTS
  MaxTests = 2
  MaxAsks = 3
  Limit = 3
SPECIFICATION MSpec
INVARIANTS Properties Emit
CHECK_DEADLOCK FALSE
