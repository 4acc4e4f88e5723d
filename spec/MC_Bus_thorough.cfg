SPECIFICATION MCSpec
CONSTANTS
Full = 0
Slots = 3
MaxDo = 3
Tot = 4
VIEW View
CONSTRAINT Bounded
INVARIANTS Inv_Place Inv_Owed Inv_Bus Inv_Pool
PROPERTIES Prop_Purged Prop_PurgedAll Prop_Order
CHECK_DEADLOCK FALSE
