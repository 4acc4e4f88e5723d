SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          Vals = {1, 2, 3}
          Pris = {0, 1, 2}
VIEW View
INVARIANT Sorted
PROPERTIES Prop_Conserve Prop_Fifo Prop_Best Prop_Unique Prop_Others
CHECK_DEADLOCK FALSE
