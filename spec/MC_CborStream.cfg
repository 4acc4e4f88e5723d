SPECIFICATION MCSpec
CONSTANTS
Modes = {0}
Alpha = {0, 1, 24, 25, 33, 57, 65, 98, 120, 127, 128, 152, 201, 246, 249, 248}
MaxRest = 4
MaxPiece = 2
Encs = 1
VIEW View
INVARIANT Settled
PROPERTY Prop_RoundTrip
CHECK_DEADLOCK FALSE
