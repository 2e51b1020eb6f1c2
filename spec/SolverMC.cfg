SPECIFICATION Spec
CONSTANTS DIM = 2
          COSTS = {0, 1, 2, 3}
INVARIANT Inv
PROPERTIES BestNeverLost
CHECK_DEADLOCK FALSE
