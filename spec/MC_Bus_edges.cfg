SPECIFICATION ESpec
CONSTANTS
Full = 2
Slots = 2
MaxDo = 2
Tot = 2
VIEW EView
CONSTRAINT Bounded
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
