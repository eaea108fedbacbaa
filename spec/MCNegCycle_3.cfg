CONSTANTS
  Places <- P3
  MaxN = 3
  Weights <- W3
  Starts <- S1
  Small = TRUE
SPECIFICATION MSpec
INVARIANTS PolicyCyclesAreNegative BoundedBelow AnswerExists ReferenceAgrees NeverStuck Emit
CHECK_DEADLOCK FALSE
