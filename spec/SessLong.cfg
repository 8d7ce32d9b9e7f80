SPECIFICATION GSpec
CONSTANTS
  Depth = 14
  Parsers = {1, 2, 3}
  Iters = {1, 2, 3}
  Texts = {1, 2}
  Roots = {1, 2}
  Envs = {1, 2}
  MaxExtra = 2
  MaxVer = 2
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
