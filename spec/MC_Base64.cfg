SPECIFICATION MCSpec
CONSTANTS Modes = {0}
 Chunks = {0, 1, 2, 3, 4}
 Alpha = {0, 99, 255}
 MaxBuf = 5
 Rooms = {0, 5, 30}
VIEW View
INVARIANTS Inverse Inverse2
PROPERTY Prop_Claim
CHECK_DEADLOCK FALSE
