SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxFiles = 3
  Depth = 4
  Alphabet = {32, 10, 97}
VIEW View
INVARIANTS SameChar InFile UnindentOk
CHECK_DEADLOCK FALSE
