SPECIFICATION MCSpec
CONSTANTS Small = 0
 Keys = {1}
 Ks = {1}
 Lens = {0, 6, 22, 23, 36, 37, 38}
VIEW View
INVARIANTS TextInv StoreInv CutInv GenInv
PROPERTY Prop_Fail
CHECK_DEADLOCK FALSE
