SPECIFICATION Spec
CONSTANTS POS = {0, 229376}
          MAXSIZE = 65536
          MAXNUM = 3
INVARIANT Inv
PROPERTIES StepIsOK FailedNothingRecorded RecoverCloser
CHECK_DEADLOCK FALSE
