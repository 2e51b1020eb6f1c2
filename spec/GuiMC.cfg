SPECIFICATION Spec
CONSTANT HISTORY = TRUE
INVARIANTS NothingUnasked CalmIsIdle
PROPERTIES StepHonoured StartHonoured
CHECK_DEADLOCK FALSE
