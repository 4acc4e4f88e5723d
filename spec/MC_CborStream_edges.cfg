SPECIFICATION MCSpec
CONSTANTS
Modes = {0, 1}
Alpha = {0, 1, 24, 25, 56, 57, 65, 98, 120, 152, 201, 249, 255}
MaxRest = 3
MaxPiece = 2
Encs = 1
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
