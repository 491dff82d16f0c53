SPECIFICATION RSpec
CONSTANTS
  Regs = {1, 2, 3, 4}
  Readers = {1, 2}
  Tags = {1, 2, 3}
  Kinds = {"int", "enc", "qbk", "nil"}
  Nums = {0, 1}
  Depth = 40
CHECK_DEADLOCK FALSE
