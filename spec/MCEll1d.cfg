CONSTANTS
  Depth = 2
SPECIFICATION MSpec
INVARIANTS Properties OneVerdict Emit
VIEW MView
CHECK_DEADLOCK FALSE
