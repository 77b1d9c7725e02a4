INIT Init
NEXT Next
INVARIANT Conform
CHECK_DEADLOCK FALSE
