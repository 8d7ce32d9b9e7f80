SPECIFICATION Spec
CONSTANTS MaxUses = 2  MaxBound = 3  Lengths = {0, 1, 2, 3, 4}
INVARIANTS Fits Shares
CHECK_DEADLOCK FALSE
