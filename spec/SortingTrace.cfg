CONSTANTS Values = {0}
 MaxLen = 0
 Denom = 1
SPECIFICATION TraceSpec
INVARIANT Permutation
POSTCONDITION TraceAccepted
