SPECIFICATION RSpec
CONSTANTS
  Alphabet = {}
  Depth = 60
CHECK_DEADLOCK FALSE
