SPECIFICATION RSpec
CONSTANTS
  CompSet = {}
  MaxComps = 0
  Count = 200
CHECK_DEADLOCK FALSE
