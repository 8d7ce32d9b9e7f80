SPECIFICATION GSpec
CONSTANTS
  Depth = 4
  Parsers = {1, 2}
  Iters = {1, 2}
  Texts = {1, 2}
  Roots = {1, 2}
  Envs = {1, 2}
  MaxExtra = 1
  MaxVer = 1
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
