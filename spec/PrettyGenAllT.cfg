SPECIFICATION GSpec
CONSTANTS
  Alphabet <- A
  Depth = 5
CHECK_DEADLOCK FALSE
