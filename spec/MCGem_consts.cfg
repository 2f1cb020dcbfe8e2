SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "consts"
CHECK_DEADLOCK FALSE
