SPECIFICATION RSpec
CONSTANTS
  Scopes = {1, 2, 3}
  MaxObjs = 30
  Depth = 30
CHECK_DEADLOCK FALSE
