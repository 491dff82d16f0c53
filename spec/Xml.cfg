SPECIFICATION Spec
CONSTANTS
  Alphabet = {60, 62, 47, 97, 32, 34, 61, 33, 45, 63}
  MaxLen = 6
INVARIANTS Nested TextOK PointsAtFault WriteRead
CHECK_DEADLOCK FALSE
