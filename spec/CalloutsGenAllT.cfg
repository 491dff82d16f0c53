SPECIFICATION ASpec
CONSTANT Most = 3
CONSTANT Count = 0
CHECK_DEADLOCK FALSE
