INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT Bounded
PROPERTY Settled
CHECK_DEADLOCK FALSE
