SPECIFICATION MSpec
CONSTANTS
  Limits = {1, 2, 3}
  Kinds = {"dc", "discrete", "algo"}
  Less <- Lt
  Plus <- Sum
INVARIANTS Promises Emit
CHECK_DEADLOCK FALSE
