INIT Init
NEXT Next
INVARIANTS Exact NoHope Bytes ShortCut
CHECK_DEADLOCK FALSE
