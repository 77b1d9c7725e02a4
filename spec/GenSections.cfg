INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT Increasing
CHECK_DEADLOCK FALSE
