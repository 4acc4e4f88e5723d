SPECIFICATION MCSpec
CONSTANTS M = 2
          Periods = {0, 1}
          Recs <- R1
          MaxT = 1
          Scripts <- S0
          Bases = {0}
CONSTRAINT Bound
VIEW View
INVARIANT Once
PROPERTIES Prop_Service Prop_Gate Prop_Due Prop_Complete Prop_Recur
CHECK_DEADLOCK FALSE
