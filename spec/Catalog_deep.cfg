CONSTANTS Rows = 4  Cols = 2  Values = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Faithful Largest
CHECK_DEADLOCK FALSE
