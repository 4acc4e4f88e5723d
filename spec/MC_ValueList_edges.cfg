SPECIFICATION MCSpec
CONSTANTS
MaxNodes = 3
KeySet <- Keys1
Kinds = {0,2}
Tys = {1}
Sets = FALSE
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
