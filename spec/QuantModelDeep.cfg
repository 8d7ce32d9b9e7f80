SPECIFICATION Spec
CONSTANTS MaxDepth = 4  MaxBound = 3  Upto_ = 8
INVARIANTS Exact Reversed
CHECK_DEADLOCK FALSE
