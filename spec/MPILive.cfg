SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT CollectivesInStep
PROPERTY Ends
