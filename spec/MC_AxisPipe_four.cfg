SPECIFICATION MCSpec
CONSTANTS N = 4
 MaxPush = 1
 Kinds = {1, 2, 4}
 Steps = 0
VIEW View
INVARIANTS Inv_Axes Inv_Err
PROPERTIES Prop_Once Prop_Most Prop_Fresh
CHECK_DEADLOCK FALSE
