CONSTANTS Regs = {1}
 Vals <- MCVals
 Widths = {3}
 MaxAbs = 1
 MaxN = 1
 MaxLevel = 1
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
