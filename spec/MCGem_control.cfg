SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "control"
CHECK_DEADLOCK FALSE
