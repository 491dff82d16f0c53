SPECIFICATION GSpec
CONSTANTS
  Alphabet = {}
  MaxLen = 0
  Count = 3
INVARIANTS Nested TextOK PointsAtFault GenOK DecEnc
CHECK_DEADLOCK FALSE
