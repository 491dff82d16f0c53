SPECIFICATION ASpec
CONSTANT Most = 5
CONSTANT Count = 0
CHECK_DEADLOCK FALSE
