SPECIFICATION MCSpec
CONSTANTS Answers = {0, 1, 2}
          Lists <- L2
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
