SPECIFICATION MCSpec
CONSTANTS Caps = {0, 1, 3}
          Vals = {0, 7}
          MaxBuf = 3
          MaxGot = 3
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
