SPECIFICATION MCSpec
CONSTANTS
 Fl = {0, 1}
 SendFrom = 9
 R0 = 100
 Pols = {0}
 Waits = {}
 MaxQ = 2
 MaxIn = 6
 MaxRnd = 4
 Early = {"sync", "syncr", "connr", "conn", "s1", "s2", "bad"}
 Menu = {"connr", "bad"}
 Effs = {0, 2}
 Hang = {}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
