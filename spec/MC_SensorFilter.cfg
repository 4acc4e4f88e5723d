SPECIFICATION MCSpec
CONSTANTS Dims = {1}
 Types = {8}
 Units1 = {0}
 Wins = {0, 1, 2, 3}
 Vals = {2, 3, 6}
 MaxTot = 4
 Owns = {1}
 Strats = {0, 1, 2}
VIEW View
INVARIANTS Inv_Window Inv_Output Inv_Stats
PROPERTIES Prop_Ser Prop_Raw Prop_Dirty
CHECK_DEADLOCK FALSE
