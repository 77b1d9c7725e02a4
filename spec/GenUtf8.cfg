INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
