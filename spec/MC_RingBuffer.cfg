SPECIFICATION MCSpec
CONSTANTS MaxCap = 3
          Vals = {1, 2}
          MaxBulk = 4
          Hist = TRUE
CONSTRAINT Bound
VIEW View
INVARIANTS TypeOK Conservation
PROPERTIES Prop_Queries Prop_Get Prop_Full Prop_Bulk Prop_Absent
CHECK_DEADLOCK FALSE
