SPECIFICATION Spec
CONSTANTS MatchN = {5, 800}  CoverN = {9, 30}  RunsN = {14}  Bounds = {3, 12}  AltBounds = {12, 40}  WorkN = {4}  WorkSteps = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
