SPECIFICATION RSpec
CONSTANTS Count = 80
 Profile = "parts"
CHECK_DEADLOCK FALSE
