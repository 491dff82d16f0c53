SPECIFICATION Spec
CONSTANT Most = 0
CONSTANT Count = 100
CHECK_DEADLOCK FALSE
