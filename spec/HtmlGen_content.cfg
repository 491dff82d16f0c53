SPECIFICATION RSpec
CONSTANTS Count = 80
 Profile = "content"
CHECK_DEADLOCK FALSE
