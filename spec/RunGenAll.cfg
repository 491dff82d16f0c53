SPECIFICATION GSpec
CONSTANT Count = 0
CHECK_DEADLOCK FALSE
