SPECIFICATION MSpec
CONSTANTS
  Places <- P2
  MaxN = 2
  Costs <- C3
  Times <- TimesSet
  Starts <- StartSet
  Limits <- Lims
  True = FALSE
INVARIANTS NeverIncreases ReferenceAgrees EndsOptimal Strictly Terminates NeverStuck Emit
CHECK_DEADLOCK FALSE
