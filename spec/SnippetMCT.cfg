SPECIFICATION Spec
CONSTANTS MaxPieces = 5
 Pieces <- P
INVARIANTS InsideOut Alternate Ignored Counted
CHECK_DEADLOCK FALSE
