SPECIFICATION Spec
CONSTANTS
  CompSet <- ModelComps
  MaxComps = 3
INVARIANTS Arrives Told Shortest UrlOK EscapeOK
CHECK_DEADLOCK FALSE
