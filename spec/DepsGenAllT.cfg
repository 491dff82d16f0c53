SPECIFICATION GSpec
CONSTANTS
  Paths <- P3
  Depth = 4
CHECK_DEADLOCK FALSE
