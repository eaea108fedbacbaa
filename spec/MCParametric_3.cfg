SPECIFICATION MSpec
CONSTANTS
  Places <- P3
  MaxN = 3
  Costs <- C3
  Times <- TimesSet
  Starts <- StartSet
  Limits <- Lim9
  True = TRUE
INVARIANTS NeverIncreases ReferenceAgrees EndsOptimal Strictly Terminates NeverStuck Emit
CHECK_DEADLOCK FALSE
