CONSTANTS Files = {"a.gtet", "b.gtet"}
SPECIFICATION TraceSpec
INVARIANT SelfDescribing
POSTCONDITION TraceAccepted
