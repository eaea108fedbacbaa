SPECIFICATION MSpec
CONSTANTS
  N = 4
  Entry <- E01
  DiagE <- D4
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers WitnessProves FactorsGiveBack PivotsAreRatiosOfMinors NeverStuck Emit
CHECK_DEADLOCK FALSE
