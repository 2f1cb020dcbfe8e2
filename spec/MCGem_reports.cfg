SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "reports"
CHECK_DEADLOCK FALSE
