SPECIFICATION MCSpec
CONSTANTS Dims = {3}
 Types = {12}
 Units1 = {2}
 Wins = {1, 2}
 Vals = {1, 4}
 MaxTot = 2
 Owns = {1}
 Strats = {0, 1, 2}
VIEW View
INVARIANTS Inv_Window Inv_Output Inv_Stats
PROPERTIES Prop_Ser Prop_Raw Prop_Dirty
CHECK_DEADLOCK FALSE
