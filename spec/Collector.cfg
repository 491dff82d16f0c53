SPECIFICATION SSpec
CONSTANTS
  MaxWrites = 3
  MaxDepth = 3
  Depth = 6
VIEW View
INVARIANT Balanced
PROPERTY OnlyTop
CHECK_DEADLOCK FALSE
