SPECIFICATION MCSpec
CONSTANTS Types = {8}
 Wins = {0, 1, 2, 3}
 Vals = {0, 1, 3}
 MaxTot = 5
 Owns = {1}
 Trips = 1
VIEW View
INVARIANTS Inv_Window Inv_Stats
PROPERTIES Prop_Value Prop_Copy Prop_Which
CHECK_DEADLOCK FALSE
