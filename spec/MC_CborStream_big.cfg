SPECIFICATION MCSpec
CONSTANTS
Modes = {0}
Alpha = {0, 1, 2, 24, 25, 26, 33, 57, 58, 65, 88, 98, 120, 121, 127, 128, 152, 184, 201, 216, 246, 249, 248, 250}
MaxRest = 4
MaxPiece = 3
Encs = 1
VIEW View
INVARIANT Settled
PROPERTY Prop_RoundTrip
CHECK_DEADLOCK FALSE
