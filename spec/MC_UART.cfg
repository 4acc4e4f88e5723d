SPECIFICATION MCSpec
CONSTANTS
Full = 1
MaxSent = 3
VIEW View
INVARIANTS Inv_Out Inv_In
PROPERTIES Prop_Mute Prop_Told Prop_Write
CHECK_DEADLOCK FALSE
