SPECIFICATION ASpec
CONSTANTS Count = 0
 Profile = "content"
CHECK_DEADLOCK FALSE
