SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 SendFrom = 2
 R0 = 100
 Pols = {0}
 Waits = {11}
 MaxQ = 1
 MaxIn = 8
 MaxRnd = 5
 Early = {"syncr", "connr"}
 Menu = {"hang", "hangr", "rep1"}
 Effs = {}
 Hang = {0, 1, 2}
VIEW View
CONSTRAINT Bound
INVARIANT Inv_Sorted
PROPERTIES Prop_Live Prop_Path Prop_Sync Prop_Refuse Prop_Fresh Prop_Force Prop_Held Prop_Sent Prop_Bytes
CHECK_DEADLOCK FALSE
