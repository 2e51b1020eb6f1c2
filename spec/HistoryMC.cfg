SPECIFICATION Spec
CONSTANTS N = 2
          MAXN = 9
          FULL = FALSE
          LOSSY = FALSE
INVARIANT RowsDiffer
CHECK_DEADLOCK FALSE
