INIT Init
NEXT Next
INVARIANTS Order Done EllipsisLate
CHECK_DEADLOCK FALSE
