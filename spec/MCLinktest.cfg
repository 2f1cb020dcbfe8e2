SPECIFICATION Spec
CONSTANT Last = 14
INVARIANT Inv
PROPERTY Steps
VIEW View
CHECK_DEADLOCK FALSE
