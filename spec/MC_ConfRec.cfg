SPECIFICATION MCSpec
CONSTANTS
Full = 1
VIEW View
INVARIANTS Holds Names_ Only
PROPERTIES Prop_Refused Prop_One
CHECK_DEADLOCK FALSE
