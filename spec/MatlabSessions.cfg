SPECIFICATION Spec
INVARIANTS ConnectedOnce UsersFindQtune
PROPERTIES NeverUnlearns OnlyOnce
CHECK_DEADLOCK FALSE
