SPECIFICATION ASpec
CONSTANTS Most = 3
 Count = 0
CHECK_DEADLOCK FALSE
