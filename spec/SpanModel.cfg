SPECIFICATION Spec
CONSTANT Size_ = 4
INVARIANTS Ordered Chosen Free Grows Split
CHECK_DEADLOCK FALSE
