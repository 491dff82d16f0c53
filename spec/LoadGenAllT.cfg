SPECIFICATION CSpec
CONSTANTS
  Bytes = {10, 13, 97, 200}
  MaxLen = 7
  Names = {1}
  Depth = 0
INVARIANT Faithful
CHECK_DEADLOCK FALSE
