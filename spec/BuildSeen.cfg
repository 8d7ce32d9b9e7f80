SPECIFICATION Spec
CONSTANT Triples = FALSE
CONSTANT OnlySeen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
