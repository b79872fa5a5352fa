CONSTANTS W = 3
 Merges = TRUE
SPECIFICATION Spec
