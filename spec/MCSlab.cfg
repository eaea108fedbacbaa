CONSTANTS
  MaxN = 4
  Steps = 4
  Fine = 6
SPECIFICATION Spec
INVARIANTS Contains Shrinks Minimal
CHECK_DEADLOCK FALSE
