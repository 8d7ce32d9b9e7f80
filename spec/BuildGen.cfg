SPECIFICATION Spec
CONSTANT Triples = TRUE
CONSTANT OnlySeen = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
