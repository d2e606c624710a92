SPECIFICATION Spec
INVARIANTS Counts InStep Together
PROPERTY Ends
CHECK_DEADLOCK FALSE
