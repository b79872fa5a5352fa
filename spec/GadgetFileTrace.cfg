CONSTANTS Files = {"a", "b"}
 MaxN = 0
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
