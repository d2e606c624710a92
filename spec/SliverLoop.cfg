SPECIFICATION Spec
INVARIANTS Bounded Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
