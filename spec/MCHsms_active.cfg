SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "active"
CHECK_DEADLOCK FALSE
