CONSTANTS Values = {0, 1, 2}
 MaxLen = 5
 Denom = 4
SPECIFICATION Spec
INVARIANTS Permutation Laws SortedLaw PctLaw
