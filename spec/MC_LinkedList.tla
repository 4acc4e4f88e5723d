---- MODULE MC_LinkedList ----
EXTENDS LinkedList, Json
CONSTANTS MaxLen, Vals
Calls == {<<o, <<x>>>> : o \in {"insert", "head"}, x \in Vals}
      \cup {<<o, <<x>>>> : o \in {"removeval", "contains"}, x \in Vals}
      \cup {<<o, <<>>>> : o \in {"pop", "clear", "get", "has"}}
      \cup {<<o, <<i>>>> : o \in {"removeat", "getat"}, i \in -1..MaxLen}
MCNext == IF ~live THEN Do("new", <<>>, <<>>)
          ELSE \/ \E c \in Calls : (c[1] \in {"insert", "head"} => Len(q) < MaxLen) /\ Do(c[1], c[2], <<>>)
               \/ Do("end", <<>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<live, q>>
TypeOK == Len(q) <= MaxLen
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Prop_Order == [][last'.op \in {"insert", "head"} => IsPre(q, q') \/ q = Tail(q')]_vars
Prop_RemoveVal == [][last'.op = "removeval" =>
     /\ ~HasElem(q', last'.a[1]) /\ \A x \in Vals \ {last'.a[1]} : Count(q, x) = Count(q', x)]_vars
Prop_Return == [][last'.op \in {"pop", "removeat"} =>
     IF last'.r[1] = 0 THEN q' = q ELSE Len(q') = Len(q) - 1 /\ Count(q', last'.r[1]) = Count(q, last'.r[1]) - 1]_vars
Prop_Queries == [][last'.op \in {"get", "getat", "has", "contains"} => q' = q]_vars
Dump == PrintT(<<"@E", ToJson(<<live, q>>), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<live', q'>>)>>)
====
