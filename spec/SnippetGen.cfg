SPECIFICATION RSpec
CONSTANTS Most = 0
 Count = 200
CHECK_DEADLOCK FALSE
