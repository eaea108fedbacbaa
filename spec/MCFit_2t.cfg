SPECIFICATION MSpec
CONSTANTS
  Forms = {"least", "likely"}
  Sites <- S2
  Data <- Y2
  Coefs <- C2t
  Levels <- L4
  Degree = 2
  Start <- Big
  Grid <- G
  Depth = 2
VIEW MView
INVARIANTS CutsKeepBetter BestIsAttained RefusedIsNot CutIsViolated NeverStuck Emit
CHECK_DEADLOCK FALSE
