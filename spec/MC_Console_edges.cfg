SPECIFICATION MCSpec
CONSTANTS
Terms = {0, 2, 3, 8}
Flags = {4}
Alpha = {97, 32, 10, 8}
MaxLen = 3
MaxPush = 2
Setups = {1}
MaxBuf = 2
MaxResp = 0
MaxDepth = 1
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
