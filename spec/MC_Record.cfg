SPECIFICATION MCSpec
CONSTANTS
MaxPay = 1
Full = 1
VIEW View
INVARIANTS Readable Whole
PROPERTIES Prop_Refused Prop_Clean
CHECK_DEADLOCK FALSE
