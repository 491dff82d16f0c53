SPECIFICATION RSpec
CONSTANTS
  MaxWrites = 99
  MaxDepth = 6
  Depth = 40
  C = 1
CHECK_DEADLOCK FALSE
