SPECIFICATION GSpec
CONSTANTS SProds = 2  XProds = 2  Lengths = {2, 4}  EmptyFix = TRUE  CycleCut = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
