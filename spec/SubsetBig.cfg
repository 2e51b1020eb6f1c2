SPECIFICATION LiveSpec
CONSTANTS POS = {0, 65536, 262144}
          MAXSIZE = 98304
          MAXNUM = 2
INVARIANT Inv
PROPERTIES StepIsOK FailedNothingRecorded RecoverCloser Comes
CHECK_DEADLOCK FALSE
