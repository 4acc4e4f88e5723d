SPECIFICATION MCSpec
CONSTANTS
 Fl = {0}
 Chunks = {99}
 Sends = {}
 Faults = {}
 Waits = {}
 Hangs = {0, 4}
 MaxFault = 1
 MaxSend = 0
 MaxRnd = 12
 MaxQ = 2
 Late = FALSE
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Genuine Inv_Order Inv_Recovers Inv_Again
CHECK_DEADLOCK FALSE
