SPECIFICATION Spec
CONSTANTS
  Amp = 2
  MaxLen = 6
INVARIANTS AtPeak NonEmpty TailSmall
CHECK_DEADLOCK FALSE
