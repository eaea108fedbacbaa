SPECIFICATION MSpec
CONSTANTS
  N = 3
  Entry <- Eq
  DiagE <- Dq
INVARIANTS AcceptsExactlyPositive RejectsExactlyOthers WitnessProves FactorsGiveBack PivotsAreRatiosOfMinors NeverStuck Emit
CHECK_DEADLOCK FALSE
