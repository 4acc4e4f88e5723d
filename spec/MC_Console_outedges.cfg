SPECIFICATION MCSpec
CONSTANTS
Terms = {2}
Flags = {1, 5}
Alpha = {97, 66, 10}
MaxLen = 3
MaxPush = 1
Setups = {2, 3}
MaxBuf = 1
MaxResp = 2
MaxDepth = 0
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
