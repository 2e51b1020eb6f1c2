SPECIFICATION LiveSpec
CONSTANTS DIM = 4
INVARIANT Inv
PROPERTIES Once Completes
CHECK_DEADLOCK FALSE
