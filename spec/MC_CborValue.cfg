SPECIFICATION MCSpec
CONSTANTS
Alpha = {0, 1, 33, 65, 66, 96, 97, 120, 129, 130, 161, 162, 246, 245, 88, 224}
MaxBuf = 4
Sers = 2
VIEW View
PROPERTY Prop_Whole
CHECK_DEADLOCK FALSE
