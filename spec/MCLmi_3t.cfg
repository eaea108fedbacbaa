SPECIFICATION MSpec
CONSTANTS
  Forms = {"minus", "plus"}
  Coef <- C3
  Const <- B3
  Levels <- L1
  Points <- P3
  Grid <- G3
  NVar = 3
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers AcceptsAcceptable RefusesOthers CutIsViolated CutExcludesNoAcceptable NeverStuck Emit
CHECK_DEADLOCK FALSE
