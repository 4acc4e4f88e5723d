---- MODULE MC_StringBuilder ----
(* Exhaustive configuration: two builders over a small alphabet, every fragmentation of every short content. *)
EXTENDS StringBuilder, Json
CONSTANTS Alpha, MaxLen, Mode

S(n) == UNION {[1..k -> Alpha] : k \in 0..n}
T == {1}                                     \* the object called; builder 2 is its partner
Build == {<<"concat", <<t>>, <<s>>>> : t \in {1, 2}, s \in S(2)} \cup {<<"prepend", <<1>>, <<s>>>> : s \in S(1)}
Call(o, as, ds) == {<<o, <<1>> \o a, d>> : a \in as, d \in ds}
N == {<<n>> : n \in 0..(MaxLen + 1)}
N2 == {<<m, n>> : m \in 0..(MaxLen + 1), n \in 0..(MaxLen + 1)}
E == {<<>>}
Content == Call("concatsb", E, E) \cup Call("copylimit", N, E) \cup Call("cull1", N, E) \cup Call("cull2", N2, E)
    \cup Call("upper", E, E) \cup Call("lower", E, E) \cup Call("string", E, E) \cup Call("byteat", N, E)
    \cup Call("copyto", N2, E) \cup Call("isempty", E, E) \cup Call("clear", E, E)
    \cup Call("handbuf", E, {<<s>> : s \in S(1)}) \cup Call("concatb", {<<x>> : x \in Alpha}, E)
Handoffs == Call("handoff", E, E) \cup Call("prehandoff", E, E) \cup Call("limit", N, E) \cup Call("string", E, E)
Search == Call("locate", N, {<<s>> : s \in S(3)}) \cup Call("containss", E, {<<s>> : s \in S(3)})
    \cup Call("containsc", {<<x>> : x \in Alpha}, E) \cup Call("cmpbin", E, {<<s>> : s \in S(2)})
    \cup Call("replace", E, {<<s, x>> : s \in S(3), x \in S(1)})
Tokens == Call("split", E, {<<s>> : s \in S(1) \ E}) \cup Call("implode", E, {<<s>> : s \in S(1)})
    \cup Call("chunk", N, E) \cup Call("drop", N, E) \cup Call("position", N, E) \cup Call("maxfrag", E, E)
    \cup Call("poshandoff", N2, E) \cup Call("handoff", E, E) \cup Call("prehandoff", E, E)
Calls == CASE Mode = "content" -> Content [] Mode = "handoff" -> Handoffs [] Mode = "search" -> Search
           [] Mode = "tokens" -> Tokens [] OTHER -> Content \cup Handoffs \cup Search \cup Tokens

MCNext == \E c \in Build \cup Calls : Do(c[1], c[2], c[3])
MCSpec == Init /\ [][MCNext]_vars
Bound == Len(C(1)) + Len(C(2)) <= MaxLen
Edge == Len(Cp(1)) + Len(Cp(2)) <= MaxLen        \* dump only transitions inside the bound
View == f

\* ---- properties
NoEmptyFragment == \A t \in {1, 2} : \A i \in 1..Len(f[t]) : f[t][i] # <<>>
Op == last'.op
Arg(i) == last'.a[i]
R == last'.r
Pure == {"string", "byteat", "copyto", "isempty", "locate", "containss", "containsc", "cmpbin", "chunk", "position", "maxfrag"}
Prop_Pure == [][(Op \in Pure) => Cp(1) = C(1) /\ Cp(2) = C(2)]_vars
Prop_Donor == [][(Op \in {"concatsb", "copylimit", "cull1", "cull2", "upper", "lower", "clear"}) => f'[2] = f[2]]_vars
Prop_Handoff == [][Op = "handoff" => Cp(1) = C(1) \o C(2) /\ Cp(2) = <<>>]_vars
Prop_PreHandoff == [][Op = "prehandoff" => Cp(1) = C(2) \o C(1) /\ Cp(2) = <<>>]_vars
\* a bounded handoff moves exactly the asked-for prefix and leaves the rest
Prop_Limit == [][Op = "limit" => /\ Cp(1) \o Cp(2) = C(1) \o C(2)
                                 /\ Len(Cp(1)) = Len(C(1)) + MinI(Arg(2), Len(C(2)))]_vars
Prop_Pos == [][Op = "poshandoff" => /\ Len(f'[1]) = Len(f[1]) + R[1] /\ Len(f'[2]) = Len(f[2]) - R[1]
                                    /\ Len(Cp(1)) + Len(Cp(2)) = Len(C(1)) + Len(C(2))]_vars
Prop_Cull == [][Op = "cull1" => C(1) = Take(C(1), Arg(2)) \o Cp(1)]_vars
Prop_Locate == [][Op = "locate" =>
   LET s == last'.d[1]  i == Arg(2) IN
   IF R[1] >= 0 THEN R[1] >= i /\ MatchAt(C(1), s, R[1]) /\ \A j \in i..(R[1] - 1) : ~MatchAt(C(1), s, j)
   ELSE s = <<>> \/ \A j \in i..MaxLen : ~MatchAt(C(1), s, j)]_vars
Prop_Replace == [][Op = "replace" =>
   LET s == last'.d[1]  x == last'.d[2] IN
   /\ Len(Cp(1)) = Len(C(1)) + R[1] * (Len(x) - Len(s))
   /\ (s # <<>> => (R[1] = 0 <=> Locate(C(1), s, 0) = -1))]_vars
Prop_Split == [][Op = "split" /\ R[1] > 0 =>
   /\ Len(f'[1]) = R[1]
   /\ \A i \in 1..R[1] : \A k \in 1..Len(f'[1][i]) : ~HasElem(last'.d[1], f'[1][i][k])
   /\ Cp(1) = SelectSeq(C(1), LAMBDA b : ~HasElem(last'.d[1], b))]_vars
Prop_Implode == [][Op = "implode" /\ R[1] > 0 =>
   Len(f'[1]) = 1 /\ Len(Cp(1)) = Len(C(1)) + (Len(f[1]) - 1) * Len(last'.d[1])]_vars
Prop_Chunk == [][Op = "chunk" /\ Arg(2) > 0 => \A i \in 1..Len(f'[1]) :
   Len(f'[1][i]) <= Arg(2) /\ (i < Len(f'[1]) => Len(f'[1][i]) = Arg(2))]_vars

Dump == Edge /\ PrintT(<<"@E", ToJson(f), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(f')>>)
====
