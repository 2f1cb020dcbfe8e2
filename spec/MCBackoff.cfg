SPECIFICATION Spec
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
