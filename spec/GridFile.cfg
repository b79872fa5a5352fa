SPECIFICATION Spec
CONSTANTS
  Files = {f1}
INVARIANTS SelfDescribing UnwrittenIsZero
