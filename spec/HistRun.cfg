CONSTANTS Segw = 4
 Skips = {1, 2, 4}
 Bins = 1
 W = 2
 Boxes = {1, 2}
SPECIFICATION Spec
INVARIANTS Once Right
PROPERTY Ends
