SPECIFICATION GSpec
CONSTANTS
  Paths <- P3
  Depth = 3
CHECK_DEADLOCK FALSE
