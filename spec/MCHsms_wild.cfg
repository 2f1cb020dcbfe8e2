SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "wild"
CHECK_DEADLOCK FALSE
