SPECIFICATION MCSpec
CONSTANTS MaxCap = 4
          Vals = {1, 2}
          MaxBulk = 5
          Hist = FALSE
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
