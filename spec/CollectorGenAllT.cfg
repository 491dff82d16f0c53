SPECIFICATION GSpec
CONSTANTS
  MaxWrites = 3
  MaxDepth = 3
  Depth = 5
  C = 2
CHECK_DEADLOCK FALSE
