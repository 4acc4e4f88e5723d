SPECIFICATION MCSpec
CONSTANT Full = 0
CONSTANT Max = 2
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
