SPECIFICATION Spec
INVARIANTS Below Above Largest Again
PROPERTY Ends
CHECK_DEADLOCK FALSE
