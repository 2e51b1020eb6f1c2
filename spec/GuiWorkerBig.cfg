SPECIFICATION Spec
CONSTANT LIMIT = 6
INVARIANT NeverRejected
PROPERTIES CloseEnds StepHonoured
CHECK_DEADLOCK FALSE
