SPECIFICATION MCSpec
CONSTANT N = 9
CONSTANT R = 60
CONSTANT T = 4
VIEW View
INVARIANTS Inv_Line Inv_Circle Inv_Round Inv_Tri
CHECK_DEADLOCK FALSE
