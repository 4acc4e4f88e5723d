SPECIFICATION MCSpec
CONSTANTS
Terms = {2}
Flags = {1}
Alpha = {97, 66, 10, 8}
MaxLen = 3
MaxPush = 2
Setups = {3}
MaxBuf = 2
MaxResp = 4
MaxDepth = 0
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Pieces Inv_Terminated Inv_Backspace Inv_Bounds
PROPERTIES Prop_Calls Prop_Out Prop_Refused
CHECK_DEADLOCK FALSE
