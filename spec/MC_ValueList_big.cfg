SPECIFICATION MCSpec
CONSTANTS
MaxNodes = 4
KeySet <- Keys1
Kinds = {0,1}
Tys = {1}
Sets = FALSE
VIEW View
INVARIANTS Once NonEmpty
PROPERTIES Prop_Reaped Prop_Drop
CHECK_DEADLOCK FALSE
