INIT Init
NEXT Next
INVARIANTS Sound Tight
CHECK_DEADLOCK FALSE
