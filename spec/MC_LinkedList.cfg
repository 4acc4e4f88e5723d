SPECIFICATION MCSpec
CONSTANTS MaxLen = 6
          Vals = {1, 2, 3}
VIEW View
INVARIANT TypeOK
PROPERTIES Prop_Order Prop_RemoveVal Prop_Return Prop_Queries
CHECK_DEADLOCK FALSE
