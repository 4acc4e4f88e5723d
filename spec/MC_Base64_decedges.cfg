SPECIFICATION MCSpec
CONSTANTS
Modes = {1}
Chunks = {0, 4}
Alpha = {65, 61, 64}
MaxBuf = 4
Rooms = {30}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
