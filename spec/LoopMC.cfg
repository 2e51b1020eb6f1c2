SPECIFICATION Spec
CONSTANTS N = 3
          VALUES = {0, 65536}
INVARIANT Inv
PROPERTIES VoltsOnlyApplied OneUp SuggestAfterFail RefusedNothing
CHECK_DEADLOCK FALSE
