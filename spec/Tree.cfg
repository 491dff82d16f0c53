SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  Trees = {1, 2}
  Depth = 9
VIEW View
INVARIANTS Once Disjoint AtEnd
PROPERTY Untouched
CHECK_DEADLOCK FALSE
