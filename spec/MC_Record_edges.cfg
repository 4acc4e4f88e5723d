SPECIFICATION MCSpec
CONSTANTS
MaxPay = 1
Full = 0
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
