CONSTANT B = 10
SPECIFICATION Spec
INVARIANTS ClosedForm Filled Net
CHECK_DEADLOCK FALSE
