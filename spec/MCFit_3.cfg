SPECIFICATION MSpec
CONSTANTS
  Forms = {"least", "likely"}
  Sites <- S3
  Data <- Y3
  Coefs <- C3
  Levels <- L3
  Degree = 3
  Start <- Big
  Grid <- G
  Depth = 2
VIEW MView
INVARIANTS CutsKeepBetter BestIsAttained RefusedIsNot CutIsViolated NeverStuck Emit
CHECK_DEADLOCK FALSE
