SPECIFICATION MCSpec
CONSTANTS Dims = {1}
 Types = {8, 12}
 Units1 = {0}
 Wins = {0, 1, 2, 3}
 Vals = {0, 7}
 MaxTot = 3
 Owns = {0, 1}
 Strats = {0, 1, 2}
VIEW Dumped
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
