INIT Init
NEXT Next
CONSTANT MaxNodes = 4
INVARIANTS OnePath Nested Typed
CHECK_DEADLOCK FALSE
