CONSTANTS Xs = {1, 2, 3}
 Bad = 9
SPECIFICATION Spec
INVARIANT Memoryless
CHECK_DEADLOCK FALSE
