SPECIFICATION MCSpec
CONSTANTS
 Fl = {0, 2}
 SendFrom = 5
 R0 = 100
 Pols = {0, 1}
 Waits = {11}
 MaxQ = 2
 MaxIn = 8
 MaxRnd = 4
 Early = {"sync", "syncr", "connr"}
 Menu = {"app", "appq", "rep2", "hang", "junk"}
 Effs = {}
 Hang = {0, 1, 2}
VIEW View
CONSTRAINT Bound
INVARIANT Inv_Sorted
PROPERTIES Prop_Live Prop_Path Prop_Sync Prop_Refuse Prop_Fresh Prop_Force Prop_Held Prop_Sent Prop_Bytes
CHECK_DEADLOCK FALSE
