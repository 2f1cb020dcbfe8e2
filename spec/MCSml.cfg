INIT Init
NEXT Next
INVARIANTS Faithful Two Unfinished Brackets
CHECK_DEADLOCK FALSE
