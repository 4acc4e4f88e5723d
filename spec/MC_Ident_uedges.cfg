SPECIFICATION MCSpec
CONSTANTS Small = 1
 Keys = {}
 Ks = {1, 2, 3}
 Lens = {36, 37}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
