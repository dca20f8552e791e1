SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Forms = {"one", "neg", "unc", "twounc", "two"}
  Layouts = {"tight", "spaced"}
  Noise = {"hash", "blank"}
  MaxLines = 3
INVARIANTS Names OrderFree KeepsUnc
CHECK_DEADLOCK FALSE
