SPECIFICATION Spec
INVARIANTS NoOverlap Fills Complete
