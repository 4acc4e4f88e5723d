SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
          Vals = {1, 2}
          Pris = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
