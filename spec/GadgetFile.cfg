SPECIFICATION Spec
CONSTANTS
  Files = {f1, f2}
  MaxN = 1
INVARIANTS InBox Whole
PROPERTY EncodingFree
