SPECIFICATION TraceSpec
INVARIANT MergedOnlyDone
POSTCONDITION TraceAccepted
