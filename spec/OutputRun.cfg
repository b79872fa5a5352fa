CONSTANTS Files = {"a", "b", "c"}
 Blocks = 2
 MaxRuns = 3
SPECIFICATION Spec
INVARIANTS OkIsComplete NoMixture EnoughIsOk
PROPERTY NeverShrinks
CHECK_DEADLOCK FALSE
