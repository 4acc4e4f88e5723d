SPECIFICATION MCSpec
CONSTANTS
MaxNodes = 1
KeySet <- Keys0
Kinds = {0,1,2,3}
Tys = {1,2,3,4,5}
Sets = TRUE
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
