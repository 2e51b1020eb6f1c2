SPECIFICATION LiveSpec
CONSTANTS N = 3
          VALUES = {0, 65536}
PROPERTIES Completes
CHECK_DEADLOCK FALSE
