SPECIFICATION MCSpec
CONSTANTS Texts = {1, 2, 4}
 Cuts = {1, 3}
 MaxPieces = 4
VIEW Dumped
ACTION_CONSTRAINT Dump
CHECK_DEADLOCK FALSE
