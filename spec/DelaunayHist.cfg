SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT PrintIt
PROPERTY PointsAccounted
CHECK_DEADLOCK FALSE
