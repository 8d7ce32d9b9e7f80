SPECIFICATION Spec
CONSTANTS MaxUses = 3  MaxBound = 2  Lengths = {1, 2, 3, 4, 5}
INVARIANTS Fits Shares
CHECK_DEADLOCK FALSE
