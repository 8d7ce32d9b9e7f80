SPECIFICATION Spec
CONSTANTS MaxUses = 3  MaxBound = 2  Lengths = {1, 2, 3, 4}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
