SPECIFICATION ASpec
CONSTANTS Count = 1
 Profile = "parts"
CHECK_DEADLOCK FALSE
