SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "once"
CHECK_DEADLOCK FALSE
