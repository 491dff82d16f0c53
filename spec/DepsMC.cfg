SPECIFICATION Spec
CONSTANTS
  Paths <- P
  Depth = 7
VIEW View
INVARIANTS Readable Once
PROPERTY Grows
CHECK_DEADLOCK FALSE
