SPECIFICATION ASpec
CONSTANT Most = 1
CONSTANT Count = 0
CHECK_DEADLOCK FALSE
