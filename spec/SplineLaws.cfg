CONSTANTS MaxNodes = 4
 Widths = {2, 4}
 Values = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS Brackets AnyPiece Law AtNodes Smooth Linear Superposes
PROPERTY Ends
CHECK_DEADLOCK FALSE
