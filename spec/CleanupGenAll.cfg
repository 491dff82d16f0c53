SPECIFICATION GSpec
CONSTANTS
  Scopes = {1, 2}
  MaxObjs = 20
  Depth = 4
CHECK_DEADLOCK FALSE
