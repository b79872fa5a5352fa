CONSTANTS Files = {f1, f2}
 HB = 2
 VB = 1
 Contents = {1, 2}
 MaxVec = 1
SPECIFICATION Spec
INVARIANT Shape
PROPERTY NeverInvent
