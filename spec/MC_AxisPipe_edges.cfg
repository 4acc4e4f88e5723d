SPECIFICATION MCSpec
CONSTANTS N = 2
 MaxPush = 1
 Kinds = {1, 2, 3, 4, 5}
 Steps = 1
VIEW Dumped
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
