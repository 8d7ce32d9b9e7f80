SPECIFICATION Spec
CONSTANTS MatchN = {0, 1, 2, 5, 63, 300, 1000, 1500}  CoverN = {0, 1, 9, 30, 47, 80}  RunsN = {14, 33}  Bounds = {2, 3, 5, 12, 31}  AltBounds = {2, 9, 11, 12, 40, 110}  WorkN = {4, 5}  WorkSteps = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
