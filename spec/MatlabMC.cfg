SPECIFICATION Spec
CONSTANTS LENGTH = 5
INVARIANTS SelectsTheSame
CHECK_DEADLOCK FALSE
