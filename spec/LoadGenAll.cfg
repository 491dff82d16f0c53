SPECIFICATION CSpec
CONSTANTS
  Bytes = {10, 13, 97, 200}
  MaxLen = 5
  Names = {1}
  Depth = 0
INVARIANT Faithful
CHECK_DEADLOCK FALSE
