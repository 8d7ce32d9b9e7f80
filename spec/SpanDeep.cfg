SPECIFICATION Spec
CONSTANT Size_ = 5
INVARIANTS Ordered Free Grows Split
CHECK_DEADLOCK FALSE
