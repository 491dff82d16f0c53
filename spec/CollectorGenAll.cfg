SPECIFICATION GSpec
CONSTANTS
  MaxWrites = 3
  MaxDepth = 3
  Depth = 4
  C = 2
CHECK_DEADLOCK FALSE
