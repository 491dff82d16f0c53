SPECIFICATION Spec
CONSTANTS
  CompSet <- ModelComps
  MaxComps = 2
INVARIANTS Arrives Told Shortest UrlOK EscapeOK
CHECK_DEADLOCK FALSE
