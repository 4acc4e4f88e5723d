SPECIFICATION MCSpec
CONSTANTS Pers = {0, 1, 2, 1500}
          Waits <- W0
          MaxAge = 2
          MaxN = 2
          Bases = {0}
VIEW View
INVARIANTS Never_early Remaining Stats
PROPERTY Prop_Once
CHECK_DEADLOCK FALSE
