CONSTANTS
  Places <- P2
  MaxN = 2
  Weights <- W2
  Starts <- S1
  Small = TRUE
SPECIFICATION MSpec
INVARIANTS PolicyCyclesAreNegative BoundedBelow AnswerExists ReferenceAgrees NeverStuck Emit
CHECK_DEADLOCK FALSE
