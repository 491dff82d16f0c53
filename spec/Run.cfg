SPECIFICATION Spec
INVARIANTS Complete NoOutput StatusOK
PROPERTY ErrorsStay
CHECK_DEADLOCK FALSE
