SPECIFICATION Spec
CONSTANT Pieces <- P
CONSTANT MaxPieces = 3
INVARIANTS Tiled Same Whole NoCodeInComments Callouts Nested
CHECK_DEADLOCK FALSE
