CONSTANTS
  MaxN = 6
  Steps = 6
  Fine = 8
SPECIFICATION Spec
INVARIANTS Contains Shrinks Minimal
CHECK_DEADLOCK FALSE
