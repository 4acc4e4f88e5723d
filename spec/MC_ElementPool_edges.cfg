SPECIFICATION MCSpec
CONSTANTS MaxCap = 2
          MaxLim = 2
          MaxSlot = 4
          MaxOver = 3
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
