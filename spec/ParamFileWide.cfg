SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Forms = {"one", "neg", "int", "unc", "negunc", "two", "twounc", "threeunc"}
  Layouts = {"tight", "spaced", "comment", "indent", "aroundpm", "tabs", "commenteq"}
  Noise = {"hash", "blank", "spaces", "hashindent", "hasheq"}
  MaxLines = 2
INVARIANTS Names OrderFree KeepsUnc
CHECK_DEADLOCK FALSE
