SPECIFICATION MCSpec
CONSTANTS
 Cs = {1, 2, 15, 20, 12}
 Fs = {0, 1, 2, 3}
 Ids = {0, 1, 255, 256, 65535, 65536, 16777215, 16777216}
 Pls = {0, 1, 248, 251, 252, 253, 255, 65526, 65530, 65531, 65533, 16777203, 16777207, 16777208}
 Kinds = {0, 1}
VIEW View
CONSTRAINT Bound
INVARIANTS Inv_Len Inv_Min
PROPERTIES Prop_RoundTrip Prop_Message Prop_Reply
CHECK_DEADLOCK FALSE
