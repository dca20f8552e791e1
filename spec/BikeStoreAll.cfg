SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Splits = {FALSE, TRUE}
  AnyMats = TRUE
INVARIANTS StoredWins ForcedIsNew NotMadeUp ForcedPeriods
PROPERTIES PeriodsKept LoadReadsOnly
CHECK_DEADLOCK FALSE
