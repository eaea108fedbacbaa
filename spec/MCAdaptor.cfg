CONSTANTS
  MaxTests = 2
  MaxAsks = 2
  Limit = 9
SPECIFICATION MSpec
INVARIANTS Properties Emit
CHECK_DEADLOCK FALSE
