SPECIFICATION RSpec
CONSTANTS
  MaxNodes = 8
  Trees = {1, 2, 3}
  Depth = 40
CHECK_DEADLOCK FALSE
