SPECIFICATION MCSpec
CONSTANTS Haves <- H0
          MaxBuf = 3
          MaxRoom = 2
          MaxBurst = 2
          Hist = TRUE
          MaxIn = 4
          Swaps = FALSE
VIEW View
INVARIANTS Ahead Stream
PROPERTY Prop_Result
CHECK_DEADLOCK FALSE
