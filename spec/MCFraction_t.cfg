SPECIFICATION MSpec
CONSTANTS
  Depth = 2
  Starts <- StartsT
  Zs <- ZsT
INVARIANTS Canonical ShowsPairs OrderAgrees Emit
CHECK_DEADLOCK FALSE
