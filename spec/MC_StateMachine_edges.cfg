SPECIFICATION MCSpec
CONSTANTS MaxCap = 2
          Codes = {0, 1, 6}
          MaxArgs = 3
          Times = {0, 2}
          MaxAge = 1
          Bases = {0, 1}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
