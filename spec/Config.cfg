SPECIFICATION Spec
CONSTANT U = 5
INVARIANTS Inside Holds Invalid Disjoint Known
