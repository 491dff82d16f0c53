SPECIFICATION RSpec
CONSTANTS Count = 80
 Profile = "notes"
CHECK_DEADLOCK FALSE
