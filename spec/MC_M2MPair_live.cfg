SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 Chunks = {99}
 Sends = {0, 1}
 Faults = {"cut", "spoil"}
 Waits = {}
 Hangs = {}
 MaxFault = 1
 MaxSend = 1
 MaxRnd = 12
 MaxQ = 2
 Late = TRUE
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Genuine Inv_Order Inv_Recovers Inv_AllThere
CHECK_DEADLOCK FALSE
