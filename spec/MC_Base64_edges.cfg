SPECIFICATION MCSpec
CONSTANTS
Modes = {0}
Chunks = {0, 1, 3}
Alpha = {0, 255}
MaxBuf = 4
Rooms = {0, 4, 30}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
