SPECIFICATION TraceSpec
INVARIANT CountsRight
POSTCONDITION TraceAccepted
