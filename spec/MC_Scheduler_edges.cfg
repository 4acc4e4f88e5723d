SPECIFICATION MCSpec
CONSTANTS M = 1
          Periods = {0, 2}
          Recs <- R1
          MaxT = 3
          Scripts <- S0
          Bases = {0, 1}
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
