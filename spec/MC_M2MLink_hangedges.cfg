SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 SendFrom = 2
 R0 = 100
 Pols = {0}
 Waits = {11}
 MaxQ = 1
 MaxIn = 8
 MaxRnd = 5
 Early = {"syncr", "connr"}
 Menu = {"hang", "hangr", "rep1"}
 Effs = {}
 Hang = {0, 1, 2}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
