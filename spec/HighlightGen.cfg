SPECIFICATION RSpec
CONSTANT Most = 0
CONSTANT Count = 200
CHECK_DEADLOCK FALSE
