CONSTANTS Files = {"a.dat", "b.dat"}
 HB = 160
 VB = 4
 Contents = {}
 MaxVec = 0
SPECIFICATION TraceSpec
INVARIANT Shape
POSTCONDITION TraceAccepted
