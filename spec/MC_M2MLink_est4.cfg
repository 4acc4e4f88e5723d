SPECIFICATION MCSpec
CONSTANTS
 Fl = {2}
 SendFrom = 9
 R0 = 100
 Pols = {0}
 Waits = {31}
 MaxQ = 2
 MaxIn = 6
 MaxRnd = 4
 Early = {"sync", "syncr", "connr", "junk", "s1", "s2"}
 Menu = {"sync", "connr", "junk", "bad"}
 Effs = {0, 2}
 Hang = {}
VIEW View
CONSTRAINT Bound
INVARIANT Inv_Sorted
PROPERTIES Prop_Live Prop_Path Prop_Sync Prop_Refuse Prop_Fresh Prop_Force Prop_Held Prop_Sent Prop_Bytes
CHECK_DEADLOCK FALSE
