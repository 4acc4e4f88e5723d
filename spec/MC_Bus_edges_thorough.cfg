SPECIFICATION ESpec
CONSTANTS
Full = 0
Slots = 2
MaxDo = 2
Tot = 1
VIEW EView
CONSTRAINT Bounded
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
