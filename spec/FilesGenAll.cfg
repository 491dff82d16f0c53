SPECIFICATION USpec
CONSTANTS
  MaxLen = 5
  MaxFiles = 3
  Depth = 0
  Alphabet = {9, 10, 32, 97}
INVARIANT UnindentOk
CHECK_DEADLOCK FALSE
