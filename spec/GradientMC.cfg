SPECIFICATION Spec
CONSTANTS DIM = 2
INVARIANT Inv
PROPERTIES Once
CHECK_DEADLOCK FALSE
