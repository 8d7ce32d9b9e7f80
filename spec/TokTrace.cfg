SPECIFICATION Spec
INVARIANT Promises
CHECK_DEADLOCK FALSE
