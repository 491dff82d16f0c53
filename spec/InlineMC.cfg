SPECIFICATION Spec
CONSTANT Pieces <- SmallPieces
CONSTANT Versions <- SomeVersions
CONSTANT MaxPieces = 3
CHECK_DEADLOCK FALSE
INVARIANTS Tiles Moves Kept Escaped Matched Escapes Ordinary Same
