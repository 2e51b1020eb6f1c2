SPECIFICATION Spec
CONSTANTS N = 2
          MAXN = 5
          FULL = TRUE
          LOSSY = TRUE
INVARIANTS Inv
PROPERTY RowsFinal
CHECK_DEADLOCK FALSE
