SPECIFICATION Spec
CONSTANTS
  N = 2
  C = 2
  BufLen = 3
  NFiles = 2
INVARIANTS NoOverflow Conserved NeverWrong Scattered Sheets
