CONSTANTS P = 2
 N = 3
 Rhs <- AllRhs
SPECIFICATION Spec
INVARIANTS Factored Signed Singular Solves Transposes
CHECK_DEADLOCK FALSE
