SPECIFICATION RSpec
CONSTANTS
  Alphabet = {}
  MaxLen = 0
  Count = 12
INVARIANTS Nested TextOK PointsAtFault GenOK DecEnc
CHECK_DEADLOCK FALSE
