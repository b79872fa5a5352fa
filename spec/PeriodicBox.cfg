CONSTANTS Regs = {1, 2}
 Vals <- MCVals
 Widths = {3, 4}
 MaxAbs = 14
 MaxN = 6
 MaxLevel = 3
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Lawful
PROPERTY OnlyDst
