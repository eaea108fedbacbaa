SPECIFICATION MSpec
CONSTANTS
  Forms = {"quad"}
  Coef <- C32
  Const <- B32
  Levels <- L3
  Points <- P2
  Grid <- G2
  NVar = 2
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers AcceptsAcceptable RefusesOthers CutIsViolated CutExcludesNoAcceptable NeverStuck Emit
CHECK_DEADLOCK FALSE
