SPECIFICATION Spec
CONSTANTS MaxDepth = 2  MaxBound = 3  Upto_ = 5
INVARIANTS Exact Derived Reversed First
CHECK_DEADLOCK FALSE
