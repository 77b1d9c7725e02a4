INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT Balanced
CHECK_DEADLOCK FALSE
