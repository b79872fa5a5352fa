CONSTANTS Steps = {1, 2}
 Orders = {2, 4}
SPECIFICATION Spec
INVARIANTS Exact Textbook Windows
CHECK_DEADLOCK FALSE
