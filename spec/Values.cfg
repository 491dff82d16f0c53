SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Readers = {1}
  Tags = {1, 2}
  Kinds = {"int"}
  Nums = {0}
  Depth = 5
VIEW View
INVARIANTS SortOK FramesOK
PROPERTIES RegsStable ConsStable
CHECK_DEADLOCK FALSE
