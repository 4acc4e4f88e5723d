SPECIFICATION ESpec
CONSTANTS
Full = 0
MaxSent = 3
VIEW EView
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
