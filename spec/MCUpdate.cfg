SPECIFICATION Spec
INVARIANT Inv
PROPERTY SameUpdate
CHECK_DEADLOCK FALSE
