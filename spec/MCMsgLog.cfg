SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS OneEach Tells Data Silent
CHECK_DEADLOCK FALSE
