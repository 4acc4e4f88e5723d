SPECIFICATION MCSpec
CONSTANTS
Ts = {1,2,3,4,6,7,8,9,11,12,13}
Edge = 1
MaxTr = 2
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
