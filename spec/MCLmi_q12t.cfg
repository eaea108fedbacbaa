SPECIFICATION MSpec
CONSTANTS
  Forms = {"quad"}
  Coef <- C12
  Const <- B12
  Levels <- L5
  Points <- P2t
  Grid <- G2t
  NVar = 2
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers AcceptsAcceptable RefusesOthers CutIsViolated CutExcludesNoAcceptable NeverStuck Emit
CHECK_DEADLOCK FALSE
