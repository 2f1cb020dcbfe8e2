SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "calls"
CHECK_DEADLOCK FALSE
