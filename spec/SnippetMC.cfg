SPECIFICATION Spec
CONSTANTS MaxPieces = 4
 Pieces <- P
INVARIANTS InsideOut Alternate Ignored Counted
CHECK_DEADLOCK FALSE
