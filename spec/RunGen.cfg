SPECIFICATION RSpec
CONSTANT Count = 200
CHECK_DEADLOCK FALSE
