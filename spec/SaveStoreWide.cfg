SPECIFICATION Spec
CONSTANTS
  Sets = {"Benchmark", "Principal", "Extra", "Measured"}
  MaxSaves = 2
  MaxJunk = 2
INVARIANTS NoMeasured AllThere
PROPERTIES OnlyOnYes Kept OwnFiles Apart
CHECK_DEADLOCK FALSE
