SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "passive"
CHECK_DEADLOCK FALSE
