SPECIFICATION MCSpec
CONSTANTS N = 3
 MaxPush = 2
 Kinds = {1, 2, 3, 4, 5}
 Steps = 0
VIEW View
INVARIANTS Inv_Axes Inv_Err
PROPERTIES Prop_Once Prop_Most Prop_Fresh
CHECK_DEADLOCK FALSE
