SPECIFICATION MCSpec
CONSTANTS
Terms = {2}
Flags = {1, 5}
Alpha = {97, 66, 10, 8}
MaxLen = 3
MaxPush = 1
Setups = {2}
MaxBuf = 2
MaxResp = 2
MaxDepth = 0
VIEW View

CHECK_DEADLOCK FALSE
