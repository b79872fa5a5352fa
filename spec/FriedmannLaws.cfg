CONSTANTS As = {0, 1, 50, 240, 272, 309, 500, 999, 1000}  Last = 40
SPECIFICATION Spec
INVARIANTS Today Matter Vacuum Dilute Division
CHECK_DEADLOCK FALSE
