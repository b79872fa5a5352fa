CONSTANTS MaxNodes = 5
 Widths = {2, 4}
 Values = {0, 3}
SPECIFICATION Spec
INVARIANTS Brackets AnyPiece Law AtNodes Smooth Linear Superposes
CHECK_DEADLOCK FALSE
