SPECIFICATION Spec
CONSTANTS
  Bytes = {10, 13, 97, 239, 187}
  MaxLen = 3
  Names = {1, 2}
  Depth = 3
VIEW View
INVARIANTS Clean Faithful
PROPERTY Stable
CHECK_DEADLOCK FALSE
