SPECIFICATION Spec
CONSTANTS Readings = {1, 2, 3, 4}  MaxReadings = 2
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
