SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 98, 42, 63, 91, 93, 94, 45, 92, 47}
  MaxPat = 4
  MaxName = 2
INVARIANTS AutomatonRight AcceptedOK PlainOK
PROPERTY ErrorSticks
CHECK_DEADLOCK FALSE
