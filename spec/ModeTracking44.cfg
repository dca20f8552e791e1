SPECIFICATION Spec
CONSTANTS
  M = 4
  Points <- Points4
INVARIANTS TypeOK Injective Complete Separated
CHECK_DEADLOCK FALSE
