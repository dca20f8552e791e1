SPECIFICATION Spec
CONSTANTS
  M = 4
  Points <- Points3
INVARIANTS TypeOK Injective Complete Separated
CHECK_DEADLOCK FALSE
