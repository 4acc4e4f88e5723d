SPECIFICATION MCSpec
CONSTANTS
Ts = {1,2,3,4,6,7,8,9,11,12,13}
Edge = 0
MaxTr = 2
VIEW View
INVARIANTS Agree Mono
PROPERTIES Prop_RoundTrip Prop_Refused Prop_Risk Prop_RiskReal
CHECK_DEADLOCK FALSE
