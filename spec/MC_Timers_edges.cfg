SPECIFICATION MCSpec
CONSTANTS Pers = {0, 2, 1500}
          Waits <- W0
          MaxAge = 1
          MaxN = 1
          Bases = {0, 1}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
