SPECIFICATION ASpec
CONSTANTS Count = 0
 Profile = "parts"
CHECK_DEADLOCK FALSE
