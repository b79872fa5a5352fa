CONSTANTS W = 4
 Merges = FALSE
SPECIFICATION Spec
