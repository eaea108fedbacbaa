SPECIFICATION MSpec
CONSTANTS
  N = 3
  Entry <- E1
  DiagE <- Dt
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers WitnessProves FactorsGiveBack PivotsAreRatiosOfMinors NeverStuck Emit
CHECK_DEADLOCK FALSE
