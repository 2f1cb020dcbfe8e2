INIT Init
NEXT Next
CONSTANT MaxNodes = 5
INVARIANTS OnePath Nested Typed
CHECK_DEADLOCK FALSE
