SPECIFICATION MCSpec
CONSTANTS Maxs = {2}
 Rooms = {0, 4}
 Links = {1, 2}
 Raw = 1
 MaxWant = 3
 MaxUp = 1
VIEW Dumped
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
