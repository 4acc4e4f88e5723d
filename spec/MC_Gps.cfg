SPECIFICATION MCSpec
CONSTANTS Texts = {1, 2, 3}
 Cuts = {1, 2}
 MaxPieces = 4
VIEW View
INVARIANTS Inv_Pieces Inv_Held
CHECK_DEADLOCK FALSE
