SPECIFICATION MCSpec
CONSTANTS Answers = {0, 1, 2}
          Lists <- LQ
VIEW View
INVARIANT Sane
PROPERTIES Prop_Order Prop_Disp Prop_Req Prop_Result
CHECK_DEADLOCK FALSE
