---- MODULE MC_ElementPool ----
EXTENDS ElementPool, Json
CONSTANTS MaxCap, MaxLim, MaxSlot, MaxOver
First == CHOOSE s \in 0..MaxSlot : out[s] = 0 /\ \A t \in 0..(s - 1) : out[t] # 0
MCNext == IF ~live THEN \E c \in 1..MaxCap, l \in 0..MaxLim, o \in 0..1 : Do("new", <<c, l, o>>, <<>>)
          ELSE \/ \E s \in 0..MaxSlot : (out[s] # 0 /\ Do("give", <<s>>, <<>>))
                                     \/ (out[s] = 0 /\ s = First /\ over < MaxOver /\ Do("take", <<s>>, <<>>))
               \/ Do("alloc", <<>>, <<>>)
               \/ (\E n \in 0..MaxLim : Do("limit", <<n>>, <<>>))
               \/ (out = None /\ Do("end", <<>>, <<>>))
MCSpec == Init /\ [][MCNext]_vars
View == <<live, ready, cap, limit, out, over, freed, low>>
Conserved == live => Held(1) + (cap - Held(1)) = cap /\ Held(1) <= cap /\ over - freed = Held(2)
LowMark == live => low <= cap /\ (ready => low <= cap - Held(1))
Prop_Limit == [][(last'.op = "take" /\ last'.r[1] = 2) => Held(2) < limit /\ Held(1) = cap]_vars
Prop_Refuse == [][(last'.op = "take" /\ last'.r[1] = 0) => Held(1) = cap /\ Held(2) >= limit]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
