SPECIFICATION GSpec
CONSTANTS
  Regs = {1, 2}
  Readers = {1}
  Tags = {1}
  Kinds = {"int"}
  Nums = {0}
  Depth = 4
CHECK_DEADLOCK FALSE
