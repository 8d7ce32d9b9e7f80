SPECIFICATION Spec
CONSTANTS
 SProds = 2
 XProds = 2
 Lengths = {0, 1, 2}

 EmptyFix = TRUE
 CycleCut = TRUE
INVARIANTS Sound Complete_ Exact Once Bounded
CHECK_DEADLOCK FALSE
