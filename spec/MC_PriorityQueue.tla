---- MODULE MC_PriorityQueue ----
EXTENDS PriorityQueue, Json
CONSTANTS MaxLen, Vals, Pris
Calls == {<<o, <<x, p>>>> : o \in {"insert", "absent"}, x \in Vals, p \in Pris}
      \cup {<<o, <<x>>>> : o \in {"removeval", "contains", "inc", "dec", "pos", "prival"}, x \in Vals}
      \cup {<<o, <<>>>> : o \in {"dequeue", "recycle", "clear", "get", "has"}}
      \cup {<<o, <<i>>>> : o \in {"removeat", "getat", "pripos"}, i \in -1..MaxLen}
      \cup {<<"bypri", <<p>>>> : p \in Pris}
Enabled(c) == /\ (c[1] \in {"insert", "absent"} => Len(q) < MaxLen)
              /\ (c[1] \in {"inc", "dec"} /\ HasX(c[2][1]) =>
                     q[PosX(c[2][1])][2] + (IF c[1] = "inc" THEN 1 ELSE -1) \in Pris)
MCNext == IF ~live THEN Do("new", <<>>, <<>>)
          ELSE (\E c \in Calls : Enabled(c) /\ Do(c[1], c[2], <<>>)) \/ Do("end", <<>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<live, q>>
Sorted == \A i \in 1..(Len(q) - 1) : q[i][2] >= q[i + 1][2]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i][1] = x})
\* Relative order of the other entries never changes.
Prop_Conserve == [][(last'.op \in {"inc", "dec", "recycle"}) => \A x \in Vals : Count(q, x) = Count(q', x)]_vars
Prop_Fifo == [][(last'.op \in {"insert", "absent"} /\ last'.r[1] >= 0) => RemoveAtIdx(q', last'.r[1] + 1) = q]_vars
Prop_Best == [][(last'.op = "dequeue" /\ q # <<>>) => \A i \in 1..Len(q) : q[i][2] <= q[1][2] /\ q' = Tail(q)]_vars
Prop_Unique == [][(last'.op = "absent" /\ last'.r[1] >= 0) => Count(q', last'.a[1]) = 1]_vars
Prop_Others == [][(last'.op \in {"inc", "dec"} /\ last'.r[1] = 1) =>
                   RemoveAtIdx(q, PosX(last'.a[1])) = RemoveAtIdx(q', CHOOSE i \in 1..Len(q') : RemoveAtIdx(q', i) = RemoveAtIdx(q, PosX(last'.a[1])))]_vars
Dump == PrintT(<<"@E", ToJson(<<live, q>>), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<live', q'>>)>>)
====
