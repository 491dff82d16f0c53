SPECIFICATION GSpec
CONSTANTS
  CompSet = {}
  MaxComps = 0
  Count = 2
CHECK_DEADLOCK FALSE
