SPECIFICATION MCSpec
CONSTANTS
Alpha = {0, 1, 24, 33, 64, 65, 96, 97, 129, 130, 161, 162, 246, 224}
MaxBuf = 4
Sers = 2
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
