SPECIFICATION Spec
CONSTANTS
  Alphabet <- A
  Depth = 5
INVARIANTS Stable Kept Apart
CHECK_DEADLOCK FALSE
