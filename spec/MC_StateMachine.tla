---- MODULE MC_StateMachine ----
EXTENDS StateMachine, Json
CONSTANTS MaxCap, Codes, MaxArgs, Times, MaxAge, Bases
Lists == UNION {[1..k -> Codes] : k \in 0..MaxArgs}
MCNext == IF cap < 0 THEN \E c \in 1..MaxCap, b \in Bases : Do("new", <<c, 0, b>>, <<>>)
          ELSE \/ \E o \in {"set", "append"}, l \in Lists : Do(o, <<>>, <<l>>)
               \/ \E o \in {"post", "pre"}, x \in Codes : Do(o, <<x>>, <<>>)
               \/ \E ok \in {0, -1}, lk \in Times \cup {-1} : Do("advance", <<ok, lk>>, <<>>)
               \/ \E x \in Codes \cap Valid : Do("reset", <<x>>, <<>>) \/ Do("mark", <<x>>, <<>>)
               \/ \E n \in Times : Do("slow", <<n>>, <<>>) \/ Do("lock", <<n>>, <<>>)
               \/ (age < MaxAge /\ Do("wait", <<1>>, <<>>))
               \/ \E x \in Codes : Do("isnext", <<x>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<cap, cur, prior, way, slow, per, age>>
TypeOK == cap >= 0 => Len(way) <= cap /\ \A i \in 1..Len(way) : way[i] \in Valid
\* the machine is only ever in planned (or initial, or explicitly set) states
Prop_Walk == [][(last'.op = "advance" /\ cur' # cur) => way # <<>> /\ cur' = way[1] /\ prior' = cur /\ way' = Tail(way)]_vars
Prop_Hold == [][(last'.op = "advance" /\ last'.r[1] # 0) => cur' = cur /\ prior' = prior /\ way' = way]_vars
Prop_Slow == [][(last'.op = "advance" /\ last'.r[1] = 0) =>
     (per' - age' >= slow \/ slow = 0) /\ (last'.a[2] < 0 \/ per' - age' >= last'.a[2])]_vars
Prop_Atomic == [][(last'.op \in {"set", "append", "pre", "post"} /\ last'.r[1] # 0) => way' = way]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
