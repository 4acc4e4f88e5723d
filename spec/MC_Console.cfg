SPECIFICATION MCSpec
CONSTANTS
Terms = {0, 2, 3, 8}
Flags = {4}
Alpha = {97, 98, 32, 10, 8}
MaxLen = 3
MaxPush = 2
Setups = {1}
MaxBuf = 3
MaxResp = 0
MaxDepth = 2
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Pieces Inv_Terminated Inv_Backspace Inv_Bounds
PROPERTIES Prop_Calls Prop_Out Prop_Refused
CHECK_DEADLOCK FALSE
