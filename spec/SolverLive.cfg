SPECIFICATION LiveSpec
CONSTANTS DIM = 3
          COSTS = {0, 1, 2}
INVARIANT Inv
PROPERTIES BestNeverLost NewIterations
CHECK_DEADLOCK FALSE
