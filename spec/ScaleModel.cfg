SPECIFICATION Spec
CONSTANTS MaxN = 7  MaxB = 4
INVARIANTS Forms
CHECK_DEADLOCK FALSE
