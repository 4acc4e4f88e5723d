SPECIFICATION MCSpec
CONSTANTS Types = {7, 12}
 Wins = {0, 2, 3}
 Vals = {1, 4}
 MaxTot = 4
 Owns = {0, 1}
 Trips = 1
VIEW Dumped
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
