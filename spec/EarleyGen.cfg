SPECIFICATION GSpec
CONSTANTS SProds = 2  XProds = 1  Lengths = {3}  EmptyFix = TRUE  CycleCut = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
