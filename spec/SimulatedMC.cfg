SPECIFICATION Spec
CONSTANTS MAXV = 1
          STEPS = 3
INVARIANTS Independent GivenKept RightSimulator
PROPERTIES MeasuringKeeps
CHECK_DEADLOCK FALSE
