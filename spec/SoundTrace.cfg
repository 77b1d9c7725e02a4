INIT Init
NEXT Next
INVARIANTS NeverWrong Height
CHECK_DEADLOCK FALSE
