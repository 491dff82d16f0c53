SPECIFICATION ASpec
CONSTANTS Most = 2
 Count = 0
CHECK_DEADLOCK FALSE
