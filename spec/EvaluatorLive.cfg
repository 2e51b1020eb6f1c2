SPECIFICATION Spec
CONSTANTS K = 2
          EVALS = 3
INVARIANTS MeasuredShifted FoundIsRestored OnlyTwoVoltages NeverOfEarlierData BadIsUndefined
PROPERTY Ends
CHECK_DEADLOCK FALSE
