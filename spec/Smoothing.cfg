CONSTANTS MaxHalf = 1
 MaxLen = 4
 Values = {0, 1, 3}
 Weights <- Ws
SPECIFICATION Spec
INVARIANTS IsConvolution KeepsConstants PeriodicShift Mirrored Interior
CHECK_DEADLOCK FALSE
