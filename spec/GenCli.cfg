SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS Succeeds Prints Explains Names
PROPERTY Ends
CHECK_DEADLOCK FALSE
