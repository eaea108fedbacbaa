SPECIFICATION MSpec
CONSTANTS
  Depth = 2
  Starts <- StartsQ
  Zs <- ZsQ
INVARIANTS Canonical ShowsPairs OrderAgrees Emit
CHECK_DEADLOCK FALSE
