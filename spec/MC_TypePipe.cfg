SPECIFICATION MCSpec
CONSTANTS Maxs = {0, 2, 8}
 Rooms = {0, 3, 6}
 Links = {0, 1, 2}
 Raw = 0
 MaxWant = 3
 MaxUp = 6
VIEW View
INVARIANT Inv_Order
PROPERTIES Prop_Drain Prop_All
CHECK_DEADLOCK FALSE
