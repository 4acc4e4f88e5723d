SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 SendFrom = 5
 R0 = 100
 Pols = {0, 4}
 Waits = {11}
 MaxQ = 2
 MaxIn = 8
 MaxRnd = 4
 Early = {"syncr", "connr"}
 Menu = {"appq", "repq"}
 Effs = {}
 Hang = {}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
