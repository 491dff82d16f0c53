SPECIFICATION GSpec
CONSTANTS
  Alphabet <- A
  Depth = 4
CHECK_DEADLOCK FALSE
