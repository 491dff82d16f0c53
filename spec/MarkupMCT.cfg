SPECIFICATION Spec
CONSTANT Tokens <- SmallTokens
CONSTANT Most = 7
CHECK_DEADLOCK FALSE
INVARIANT Same
PROPERTY Stays
