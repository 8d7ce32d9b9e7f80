SPECIFICATION Spec
CONSTANTS Readings = {1, 2, 3, 4, 5, 6}  MaxReadings = 2
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
