CONSTANTS MaxSub = 4
 MaxCells = 7
SPECIFICATION Spec
INVARIANTS Exact InGrid Whole Meet
