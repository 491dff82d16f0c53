SPECIFICATION RSpec
CONSTANTS
  Paths <- P20
  Depth = 30
CHECK_DEADLOCK FALSE
