SPECIFICATION Spec
INVARIANTS Stateless PrintIt
CHECK_DEADLOCK FALSE
