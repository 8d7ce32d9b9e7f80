SPECIFICATION Spec
CONSTANTS
 SProds = 2
 XProds = 1
 Lengths = {0, 1, 2}

 EmptyFix = TRUE
 CycleCut = FALSE
INVARIANTS Sound Complete_ Exact Once Bounded
CHECK_DEADLOCK FALSE
