SPECIFICATION MCSpec
CONSTANTS
Full = 0
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
