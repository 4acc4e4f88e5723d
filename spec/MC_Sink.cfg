SPECIFICATION MCSpec
CONSTANTS Caps = {0, 1, 2, 3, 5}
          Vals = {0, 7}
          MaxBuf = 4
          MaxGot = 5
VIEW View
PROPERTY Prop_Push
CHECK_DEADLOCK FALSE
