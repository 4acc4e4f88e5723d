---- MODULE MC_Sink ----
EXTENDS Sink, Json
CONSTANTS Caps, Vals, MaxBuf, MaxGot
Strs == UNION {[1..n -> Vals] : n \in 1..2}
MCNext == IF cap < 0 THEN \E c \in Caps : Do("new", <<c>>, <<>>)
          ELSE \/ \E b \in Strs : Len(buf) + Len(b) <= MaxBuf /\ Do("feed", <<>>, <<b>>)
               \/ Do("push", <<>>, <<>>)
               \/ \E b \in Strs : Len(got) + Len(b) <= MaxGot /\ Do("extra", <<>>, <<b>>)
               \/ \E n \in 1..3 : Do("drain", <<n>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<cap, buf, got>>
Prop_Push == [][(last'.op = "push") =>
   /\ got' \o buf' = got \o buf                                        \* nothing lost, duplicated, reordered or altered
   /\ (last'.r[1] = 1 <=> buf # <<>> /\ buf' = <<>>) /\ (last'.r[1] = -1 <=> buf' = buf)
   /\ (Len(got) <= cap => Len(got') <= cap)                            \* never overfilled
   /\ (buf' # <<>> => Len(got') >= cap)]_vars                          \* takes as much as it can
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
