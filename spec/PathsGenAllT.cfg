SPECIFICATION GSpec
CONSTANTS
  CompSet = {}
  MaxComps = 0
  Count = 3
CHECK_DEADLOCK FALSE
