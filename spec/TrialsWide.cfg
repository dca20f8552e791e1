SPECIFICATION Spec
CONSTANTS
  Records = {1, 2, 3, 4, 5, 6, 7}
  MaxRecords = 5
INVARIANTS OnePeriod Complete Together
CHECK_DEADLOCK FALSE
