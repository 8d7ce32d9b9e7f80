SPECIFICATION Spec
CONSTANTS Readings = {1, 2, 3, 4}  MaxReadings = 2
INVARIANTS Kept Final Greatest
CHECK_DEADLOCK FALSE
