SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT FacesOK
INVARIANT PrintIt
CHECK_DEADLOCK FALSE
