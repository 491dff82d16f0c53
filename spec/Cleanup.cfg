SPECIFICATION Spec
CONSTANTS
  Scopes = {1, 2}
  MaxObjs = 5
  Depth = 7
VIEW View
INVARIANTS Once Exact Closed Newest
PROPERTY NothingEarly
CHECK_DEADLOCK FALSE
