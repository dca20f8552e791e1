SPECIFICATION Spec
CONSTANTS
  Sets = {"Benchmark", "Principal", "Measured"}
  MaxSaves = 2
  MaxJunk = 1
INVARIANTS NoMeasured AllThere
PROPERTIES OnlyOnYes Kept OwnFiles Apart
CHECK_DEADLOCK FALSE
