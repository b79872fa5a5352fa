CONSTANTS N = 3  W = 9  Cs = {1, 2, 3, 4, 5, 7, 9}  R = 5
SPECIFICATION Spec
INVARIANTS Listed Exact Reach
CHECK_DEADLOCK FALSE
