SPECIFICATION RSpec
CONSTANTS
  Bytes = {10}
  MaxLen = 1
  Names = {1, 2, 3}
  Depth = 20
CHECK_DEADLOCK FALSE
