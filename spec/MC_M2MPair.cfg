SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 Chunks = {99}
 Sends = {}
 Faults = {}
 Waits = {}
 Hangs = {}
 MaxFault = 0
 MaxSend = 0
 MaxRnd = 10
 MaxQ = 2
 Late = FALSE
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Genuine Inv_Order Inv_Recovers
CHECK_DEADLOCK FALSE
