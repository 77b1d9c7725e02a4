INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANTS Discipline NoUnknownOutsideDead
PROPERTY Protected
CHECK_DEADLOCK FALSE
