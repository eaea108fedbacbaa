SPECIFICATION MSpec
CONSTANTS
  Forms = {"minus"}
  Coef <- C3
  Const <- B3
  Levels <- L1
  Points <- P2
  Grid <- G2
  NVar = 2
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers AcceptsAcceptable RefusesOthers CutIsViolated CutExcludesNoAcceptable NeverStuck Emit
CHECK_DEADLOCK FALSE
