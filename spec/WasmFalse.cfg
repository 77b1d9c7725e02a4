INIT Init
NEXT Next
INVARIANT Differ
ALIAS Shown
