SPECIFICATION GSpec
CONSTANTS
  Alphabet = {}
  MaxLen = 0
  Count = 4
INVARIANTS Nested TextOK PointsAtFault GenOK DecEnc
CHECK_DEADLOCK FALSE
