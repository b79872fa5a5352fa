SPECIFICATION TraceSpec
INVARIANT DefaultStays
POSTCONDITION TraceAccepted
