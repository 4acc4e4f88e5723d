SPECIFICATION MCSpec
CONSTANTS Small = 1
 Keys = {1}
 Ks = {}
 Lens = {22, 23}
VIEW View
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
