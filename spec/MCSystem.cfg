SPECIFICATION MSpec
CONSTANTS
  Cands = {1, 2, 3}
  Values = {0, 1, 2}
INVARIANTS Complete NoSolutionIsTrue BestIsReached FoundIsTrue
PROPERTIES Falls
CHECK_DEADLOCK FALSE
