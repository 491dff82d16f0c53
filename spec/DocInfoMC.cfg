SPECIFICATION Spec
CONSTANT Most = 2
INVARIANTS Kept Unordered Nothing
CHECK_DEADLOCK FALSE
