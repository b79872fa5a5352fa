CONSTANTS P = 3
 N = 3
 Rhs <- UnitRhs
SPECIFICATION Spec
INVARIANTS Factored Signed Singular Solves Transposes
CHECK_DEADLOCK FALSE
