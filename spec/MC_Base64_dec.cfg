SPECIFICATION MCSpec
CONSTANTS Modes = {1}
 Chunks = {0, 4, 8, 3}
 Alpha = {65, 43, 61, 64}
 MaxBuf = 5
 Rooms = {0, 3, 32}
VIEW View
INVARIANTS Inverse Inverse2
PROPERTY Prop_Claim
CHECK_DEADLOCK FALSE
