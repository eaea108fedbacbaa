CONSTANTS
  Places <- P4
  MaxN = 4
  Weights <- W3
  Starts <- S1
  Small = TRUE
SPECIFICATION MSpec
INVARIANTS PolicyCyclesAreNegative BoundedBelow AnswerExists ReferenceAgrees NeverStuck Emit
CHECK_DEADLOCK FALSE
