SPECIFICATION MSpec
CONSTANTS
  Places <- P2
  MaxN = 2
  Costs <- C2
  Times <- TimesSet
  Starts <- StartSet
  Limits <- Lim9
  True = TRUE
INVARIANTS NeverIncreases ReferenceAgrees EndsOptimal Strictly Terminates NeverStuck Emit
CHECK_DEADLOCK FALSE
