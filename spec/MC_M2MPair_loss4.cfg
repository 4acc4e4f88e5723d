SPECIFICATION MCSpec
CONSTANTS
 Fl = {0, 18}
 Chunks = {99}
 Sends = {}
 Faults = {"lose", "cut", "spoil"}
 Waits = {}
 Hangs = {}
 MaxFault = 3
 MaxSend = 0
 MaxRnd = 10
 MaxQ = 2
 Late = FALSE
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Genuine Inv_Order Inv_Recovers
CHECK_DEADLOCK FALSE
