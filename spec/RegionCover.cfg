CONSTANTS MaxSub = 3
 MaxCells = 4
SPECIFICATION Spec
INVARIANTS Exact InGrid Whole Meet
