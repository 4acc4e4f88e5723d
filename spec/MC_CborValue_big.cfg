SPECIFICATION MCSpec
CONSTANTS
Alpha = {0, 1, 33, 56, 65, 66, 96, 97, 120, 121, 129, 130, 152, 161, 162, 184, 246, 245, 88, 217, 233, 58, 216, 72, 67, 224, 28}
MaxBuf = 5
Sers = 2
VIEW View
PROPERTY Prop_Whole
CHECK_DEADLOCK FALSE
