SPECIFICATION LiveSpec
CONSTANTS MAXID = 4
          MAXVER = 3
          FAILS = 2
INVARIANT Inv
PROPERTIES NeverAltered JoinReturns
CHECK_DEADLOCK FALSE
