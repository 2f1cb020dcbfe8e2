SPECIFICATION Spec
INVARIANT Inv
CONSTANT Part = "alarms"
CHECK_DEADLOCK FALSE
