SPECIFICATION MCSpec
CONSTANT N = 6
CONSTANT R = 24
CONSTANT T = 3
VIEW View
INVARIANTS Inv_Line Inv_Circle Inv_Round Inv_Tri
CHECK_DEADLOCK FALSE
