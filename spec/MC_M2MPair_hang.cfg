SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 Chunks = {99}
 Sends = {1}
 Faults = {}
 Waits = {}
 Hangs = {2, 3}
 MaxFault = 0
 MaxSend = 1
 MaxRnd = 12
 MaxQ = 2
 Late = FALSE
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Genuine Inv_Order Inv_Recovers Inv_Down
CHECK_DEADLOCK FALSE
