SPECIFICATION Spec
CONSTANT Size_ = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
