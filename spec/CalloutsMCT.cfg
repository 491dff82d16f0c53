SPECIFICATION Spec
CONSTANT Most = 3
INVARIANTS Paired Ordered NotEmpty Settled Depth
CHECK_DEADLOCK FALSE
