SPECIFICATION Spec
CONSTANT Tokens <- SmallTokens
CONSTANT Most = 5
CHECK_DEADLOCK FALSE
INVARIANT Same
PROPERTY Stays
