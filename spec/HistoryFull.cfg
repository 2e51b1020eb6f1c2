SPECIFICATION Spec
CONSTANTS N = 2
          MAXN = 6
          FULL = TRUE
          LOSSY = FALSE
INVARIANTS Inv CellsRight
PROPERTY RowsFinal
CHECK_DEADLOCK FALSE
