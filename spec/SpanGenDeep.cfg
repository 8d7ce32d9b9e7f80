SPECIFICATION Spec
CONSTANT Size_ = 5
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
