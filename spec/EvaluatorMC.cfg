SPECIFICATION Spec
CONSTANTS K = 2
          EVALS = 2
INVARIANTS MeasuredShifted FoundIsRestored OnlyTwoVoltages NeverOfEarlierData BadIsUndefined
CHECK_DEADLOCK FALSE
