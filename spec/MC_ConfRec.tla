---- MODULE MC_ConfRec ----
EXTENDS ConfRec, Json, FiniteSets
CONSTANTS Full
VARIABLE put             \* per definition, what was last accepted: <<type, raw>>
A == <<97>>
AA == <<65>>
B == <<98>>
C == <<99, 68>>
\* value, flags, context triples, and names
Lists == { <<<<0, 0, 1>>, <<A>>>>,
           <<<<0, 0, 1, 1, 0, 6, 2, 2, 3>>, <<A, B, C>>>>,
           <<<<1, 0, 11, 2, 3, 0>>, <<C, B>>>>,
           <<<<1, 1, 7, 1, 1, 4, 3, 0, 0>>, <<B, A, C>>>> }
         \cup (IF Full = 1 THEN { <<<<1, 2, 1, 1, 0, 2, 2, 0, 12>>, <<A, AA, B>>>>, <<<<5, 2, 1>>, <<A>>>>, <<<<0, 0, 12, 9, 0, 13>>, <<B, A>>>> } ELSE {})
Raws(y) == {Zero} \cup CASE y = 1 -> {<<200, 0, 0, 0>>} [] y = 6 -> {<<255, 0, 0, 0>>, <<127, 0, 0, 0>>} [] y = 3 -> {<<200, 1, 0, 0>>}
             [] y = 11 -> {<<1, 0, 0, 0>>} [] y = 12 -> {<<0, 16256, 0, 0>>} [] OTHER -> {<<65535, 0, 0, 0>>}
Ty == {1, 6, 3} \cup (IF Full = 1 THEN {2, 11, 12} ELSE {})
Keyed == {<<0, 0, A>>, <<0, 0, B>>, <<1, 1, <<>>>>, <<1, 7, <<>>>>} \cup (IF Full = 1 THEN {<<0, 0, AA>>, <<0, 0, C>>, <<1, 2, <<>>>>, <<0, 0, <<>>>>} ELSE {})
Step == \/ (defs = <<>> /\ \E x \in Lists : Do("list", x[1], x[2]))
        \/ \E v \in {0, 1, 2, 7} : Do("valid", <<v>>, <<>>) \/ Do("str", <<v>>, <<>>) \/ Do("extra", <<v>>, <<>>) \/ Do("def", <<v>>, <<>>)
        \/ Do("keys", <<>>, <<>>) \/ Do("print", <<>>, <<>>)
        \/ \E s \in {A, AA, B, C, <<>>, <<97, 97>>} : Do("bystr", <<>>, <<s>>)
        \/ \E f \in 0..1 : Do("alloc", <<f>>, <<>>)
        \/ \E k \in Keyed, y \in Ty : Do("get", <<k[1], k[2], y>>, <<k[3]>>) \/ \E x \in Raws(y) : Do("set", <<k[1], k[2], y>>, <<x, k[3]>>)
MCNext == Step /\ put' = (IF last'.op = "list" THEN [i \in 1..Len(defs') |-> <<1, Zero>>]
                          ELSE IF last'.op = "set" /\ last'.r[1] = 0
                               THEN [put EXCEPT ![KeyOf(last'.a[1], last'.a[2], last'.d[2])] = <<last'.a[3], last'.d[1]>>] ELSE put)
MCInit == Init /\ put = <<>>
MCSpec == MCInit /\ [][MCNext]_<<vars, put>>
View == <<defs, got, vals, put>>
\* what a key holds is what was last accepted for it, the other keys notwithstanding, and it reads back as the type it was set from
Holds == \A i \in 1..Len(defs) : put[i] # <<1, Zero>> =>
           /\ vals[i] = N!Convert(put[i][1], put[i][2], defs[i].c)
           /\ N!Convert(defs[i].c, vals[i], put[i][1]) = put[i][2] \/ defs[i].c \in {11, 12, 13}
\* a name leads to its definition, and back, whatever its letter case
Names_ == \A i \in 1..Len(defs) : /\ Named(1, defs[i].s, 0)[2] = 1
                                  /\ (OkConf => Named(1, defs[i].s, 0)[1] = i)
                                  /\ ((\A j \in 1..(i - 1) : defs[j].v # defs[i].v) => Str(defs[i].v) = defs[i].s)
\* only valid keys can be set
Only == \A i \in 1..Len(defs) : INVALID(defs[i]) => vals[i] = Zero
Prop_Refused == [][(last'.op \in {"set"} /\ last'.r[1] # 0) => vals' = vals]_vars
Prop_One == [][last'.op = "set" => Cardinality({ i \in 1..Len(vals) : vals'[i] # vals[i] }) <= 1]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
