SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Splits = {FALSE, TRUE}
  AnyMats = FALSE
INVARIANTS StoredWins ForcedIsNew NotMadeUp ForcedPeriods
PROPERTIES PeriodsKept LoadReadsOnly
CHECK_DEADLOCK FALSE
