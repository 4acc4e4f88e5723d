SPECIFICATION MCSpec
CONSTANTS
 Cs = {1, 15, 12}
 Fs = {0, 1, 3}
 Ids = {0, 255, 65536, 16777216}
 Pls = {0, 248, 251, 252, 253, 65526, 65530, 16777203, 16777207, 16777208}
 Kinds = {0, 1}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
