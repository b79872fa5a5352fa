CONSTANTS Segw = 4
 Skips = {1, 2, 4}
 Bins = 2
 W = 3
 Boxes = {1, 2}
SPECIFICATION Spec
INVARIANTS Once Right
PROPERTY Ends
