SPECIFICATION MCSpec
CONSTANTS
Full = 1
Slots = 2
MaxDo = 2
Tot = 3
VIEW View
CONSTRAINT Bounded
INVARIANTS Inv_Place Inv_Owed Inv_Bus Inv_Pool
PROPERTIES Prop_Purged Prop_PurgedAll Prop_Order
CHECK_DEADLOCK FALSE
