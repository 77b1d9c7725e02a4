INIT Init
NEXT Next
INVARIANTS Accepted OneCharacter Injective Count
CHECK_DEADLOCK FALSE
