INIT Init
NEXT Next
INVARIANTS InBounds WindowsNested StacksOk Accepts Conform
CHECK_DEADLOCK TRUE
ALIAS Shown
