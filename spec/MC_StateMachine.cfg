SPECIFICATION MCSpec
CONSTANTS MaxCap = 3
          Codes = {0, 1, 6}
          MaxArgs = 3
          Times = {0, 1, 2}
          MaxAge = 2
          Bases = {0}
VIEW View
INVARIANT TypeOK
PROPERTIES Prop_Walk Prop_Hold Prop_Slow Prop_Atomic
CHECK_DEADLOCK FALSE
