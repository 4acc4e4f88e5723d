SPECIFICATION MCSpec
CONSTANTS Alpha = {97, 98}
          MaxLen = 5
          Mode = "handoff"
VIEW View
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
INVARIANT NoEmptyFragment
PROPERTIES Prop_Pure Prop_Donor Prop_Handoff Prop_PreHandoff Prop_Limit Prop_Pos Prop_Cull
           Prop_Locate Prop_Replace Prop_Split Prop_Implode Prop_Chunk
