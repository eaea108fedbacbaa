CONSTANTS
  Lows <- LowsMore
  Widths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  Limits = {0, 1, 2, 3, 4, 50}
SPECIFICATION MSpec
INVARIANTS Properties NeverStuck Emit
CHECK_DEADLOCK FALSE
