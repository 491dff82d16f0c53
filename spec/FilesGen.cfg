SPECIFICATION RSpec
CONSTANTS
  MaxLen = 60
  MaxFiles = 5
  Depth = 25
  Alphabet = {9}
CHECK_DEADLOCK FALSE
