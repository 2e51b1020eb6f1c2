SPECIFICATION Spec
CONSTANTS MAXID = 2
          MAXVER = 2
          FAILS = 1
INVARIANT Inv
PROPERTIES NeverAltered
CHECK_DEADLOCK FALSE
