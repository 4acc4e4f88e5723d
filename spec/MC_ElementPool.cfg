SPECIFICATION MCSpec
CONSTANTS MaxCap = 3
          MaxLim = 2
          MaxSlot = 5
          MaxOver = 4
VIEW View
INVARIANTS Conserved LowMark
PROPERTIES Prop_Limit Prop_Refuse
CHECK_DEADLOCK FALSE
