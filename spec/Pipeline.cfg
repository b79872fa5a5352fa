SPECIFICATION Spec
CONSTANTS
  N = 4
  B = 8
  P = 2
  K = 1
INVARIANTS Conserved Partition AtEnd Bounds HistTotal
PROPERTY Finishes
