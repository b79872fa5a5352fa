CONSTANTS P = 3
 N = 2
 Rhs <- AllRhs
SPECIFICATION Spec
INVARIANTS Factored Signed Singular Solves Transposes
PROPERTY Ends
CHECK_DEADLOCK FALSE
