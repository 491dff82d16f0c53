SPECIFICATION Spec
CONSTANT Pieces <- P
CONSTANT MaxPieces = 4
INVARIANTS Tiled Same Whole NoCodeInComments Callouts Nested
CHECK_DEADLOCK FALSE
