CONSTANTS N = 3  W = 6  Cs = {1, 2, 4, 5}  R = 3
SPECIFICATION Spec
INVARIANTS Listed Exact Reach
CHECK_DEADLOCK FALSE
