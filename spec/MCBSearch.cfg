CONSTANTS
  Lows <- LowsQuick
  Widths = {0, 1, 2, 3, 5, 8}
  Limits = {0, 1, 2, 50}
SPECIFICATION MSpec
INVARIANTS Properties NeverStuck Emit
CHECK_DEADLOCK FALSE
