SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoStuck Delivered OnlyNeighbours PrintIt
