CONSTANTS MaxHalf = 2
 MaxLen = 6
 Values = {0, 1, 3}
 Weights <- Wd
SPECIFICATION Spec
INVARIANTS IsConvolution KeepsConstants PeriodicShift Mirrored Interior
CHECK_DEADLOCK FALSE
