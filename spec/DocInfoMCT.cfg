SPECIFICATION Spec
CONSTANT Most = 3
INVARIANTS Kept Unordered Nothing
CHECK_DEADLOCK FALSE
