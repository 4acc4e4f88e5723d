SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 Chunks = {99}
 Sends = {0, 1}
 Faults = {}
 Waits = {}
 Hangs = {}
 MaxFault = 0
 MaxSend = 2
 MaxRnd = 12
 MaxQ = 2
 Late = FALSE
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Genuine Inv_Order Inv_AllThere
CHECK_DEADLOCK FALSE
