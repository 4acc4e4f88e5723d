SPECIFICATION MCSpec
CONSTANT Full = 1
CONSTANT Max = 2
VIEW View
CONSTRAINT Bounded
INVARIANTS Inv_Map Inv_Kept Inv_Size
PROPERTIES Prop_Wire Prop_Set
CHECK_DEADLOCK FALSE
