SPECIFICATION MSpec
CONSTANTS
  Forms = {"minus", "plus"}
  Coef <- C2
  Const <- B2
  Levels <- L1
  Points <- P2t
  Grid <- G2t
  NVar = 2
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers AcceptsAcceptable RefusesOthers CutIsViolated CutExcludesNoAcceptable NeverStuck Emit
CHECK_DEADLOCK FALSE
