SPECIFICATION Spec
CONSTANTS
  Amp = 2
  MaxLen = 5
INVARIANTS AtPeak NonEmpty TailSmall
CHECK_DEADLOCK FALSE
