SPECIFICATION MCSpec
CONSTANTS
MaxNodes = 3
KeySet <- Keys0
Kinds = {0,1}
Tys = {1}
Sets = FALSE
VIEW View
INVARIANTS Once NonEmpty
PROPERTIES Prop_Reaped Prop_Drop
CHECK_DEADLOCK FALSE
