SPECIFICATION Spec
CONSTANT Most = 2
INVARIANTS Paired Ordered NotEmpty Settled Depth
CHECK_DEADLOCK FALSE
