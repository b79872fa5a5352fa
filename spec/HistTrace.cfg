SPECIFICATION HSpec
INVARIANT MergedOnlyDone
POSTCONDITION TraceAccepted
