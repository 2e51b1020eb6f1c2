SPECIFICATION Spec
CONSTANT LIMIT = 4
INVARIANT NeverRejected
PROPERTIES CloseEnds StepHonoured
CHECK_DEADLOCK FALSE
