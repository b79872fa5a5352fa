SPECIFICATION Spec
CONSTANTS
  N = 4
  B = 8
  P = 2
  K = 2
INVARIANTS Conserved Partition AtEnd Bounds HistTotal
