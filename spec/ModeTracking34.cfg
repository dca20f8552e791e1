SPECIFICATION Spec
CONSTANTS
  M = 3
  Points <- Small4
INVARIANTS TypeOK Injective Complete Separated
CHECK_DEADLOCK FALSE
