SPECIFICATION Spec
CONSTANTS LIMIT = 1
INVARIANTS TypeOk AllSent
PROPERTIES KeepsOthers SetsRequested RefusedChangesNothing
CHECK_DEADLOCK FALSE
