SPECIFICATION MCSpec
CONSTANTS Haves <- H0
          MaxBuf = 3
          MaxRoom = 2
          MaxBurst = 2
          Hist = FALSE
          MaxIn = 99
          Swaps = TRUE
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
