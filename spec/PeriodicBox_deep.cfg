CONSTANTS Regs = {1, 2}
 Vals <- MCVals
 Widths = {3, 4}
 MaxAbs = 14
 MaxN = 9
 MaxLevel = 4
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Lawful
PROPERTY OnlyDst
