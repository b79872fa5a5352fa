CONSTANT B = 8
SPECIFICATION Spec
INVARIANTS ClosedForm Filled Net
CHECK_DEADLOCK FALSE
