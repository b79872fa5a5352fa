CONSTANTS W = 2
 Merges = TRUE
SPECIFICATION Spec
