SPECIFICATION Spec
CONSTANTS
  ParamKeys = {101, 102}
  PeriodKeys = {1, 2, 3}
  Vals = {1, 2}
  MaxLines = 3
  MaxWrites = 1
INVARIANTS Unique ReadsBack
PROPERTIES OthersKept
CHECK_DEADLOCK FALSE
