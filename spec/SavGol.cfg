SPECIFICATION Spec
INVARIANTS Reproduces Polynomial
CHECK_DEADLOCK FALSE
