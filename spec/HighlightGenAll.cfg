SPECIFICATION ASpec
CONSTANT Most = 2
CONSTANT Count = 0
CHECK_DEADLOCK FALSE
