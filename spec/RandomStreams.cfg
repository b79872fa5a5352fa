CONSTANTS Gens = {1, 2}
 Keys = {1, 2, 3}
 Length = 5
SPECIFICATION Spec
INVARIANT ChunkFree
CHECK_DEADLOCK FALSE
