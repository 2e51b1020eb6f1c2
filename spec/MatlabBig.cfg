SPECIFICATION Spec
CONSTANTS LENGTH = 9
INVARIANTS SelectsTheSame
CHECK_DEADLOCK FALSE
