SPECIFICATION GSpec
CONSTANTS
  MaxNodes = 4
  Trees = {1, 2}
  Depth = 8
VIEW View
CHECK_DEADLOCK FALSE
