SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 SendFrom = 9
 R0 = 100
 Pols = {0}
 Waits = {31}
 MaxQ = 2
 MaxIn = 6
 MaxRnd = 4
 Early = {"sync", "syncr", "connr", "junk"}
 Menu = {"sync", "connr", "junk"}
 Effs = {}
 Hang = {}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
