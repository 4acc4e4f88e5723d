---- MODULE MC_AxisPipe ----
(* Every pipeline of so many places, with a few vectors pushed in at the first. *)
EXTENDS AxisPipe, Json
CONSTANTS N, MaxPush, Kinds, Steps
VARIABLES pushed, placed
Vs == {<<4, 0, -8>>, <<0, 8, 4>>}
Fill == LET i == N - placed IN      \* places are filled from the last
  \E k \in Kinds : LET ch == {0} \cup {j \in (i + 1)..N : TRUE} IN
    CASE k = 1 -> \E s \in 0..1, c \in 0..2 : Do("node", <<i, 1, s, 0, 0, 0, 0, c>>)
      [] k = 2 -> \E a, b \in ch : Do("node", <<i, 2, 0, a, b, 0, 0, 0>>)
      [] k = 3 -> \E s \in 0..1, a \in ch, st \in {0, 2}, w \in 1..2 : Do("node", <<i, 3, s, a, 0, st, w, 0>>)
      [] k = 4 -> \E a \in ch, g \in {0, 2, 13} : Do("node", <<i, 4, 0, a, 0, 0, 0, g>>)
      [] OTHER -> \E c \in {0, -1} : Do("node", <<i, 5, 0, 0, 0, 0, 0, c>>)
MCNext == \/ nodes = <<>> /\ Do("new", <<N>>) /\ UNCHANGED <<pushed, placed>>
          \/ nodes # <<>> /\ placed < N /\ Fill /\ placed' = placed + 1 /\ UNCHANGED pushed
          \/ placed = N /\ pushed < MaxPush /\ \E v \in Vs, s \in 0..1, e \in 0..1 : Do("push", <<1, s>> \o v \o <<e, 4, 0, 8>>) /\ pushed' = pushed + 1 /\ UNCHANGED placed
          \/ placed = N /\ Steps = 1 /\ UNCHANGED <<pushed, placed>> /\ \E i \in 1..N : Do("take", <<i>>) \/ Do("clear", <<i>>)
MCSpec == Init /\ pushed = 0 /\ placed = 0 /\ [][MCNext]_<<vars, pushed, placed>>
View == <<nodes, now, pushed, placed>>
Dumped == <<nodes, now, pushed, placed>>
\* ---- what a user relies on, said otherwise than by Push
RECURSIVE Paths(_, _)
Paths(i, j) == IF i = j THEN 1 ELSE LET x == nodes[i] IN
  CASE x.k = 2 -> (IF x.a = 0 THEN 0 ELSE Paths(x.a, j)) + (IF x.b = 0 THEN 0 ELSE Paths(x.b, j))
    [] x.k \in {3, 4} -> IF x.a = 0 THEN 0 ELSE Paths(x.a, j)
    [] OTHER -> 0
Filters == \E i \in 1..N : nodes[i].k = 3
\* without filters, a vector arrives at each terminus of its sense once for each way that leads there, and nowhere else
Prop_Once == [][last'.op = "push" /\ last' # last /\ ~Filters => \A j \in 1..N : nodes[j].k = 1 =>
                  nodes'[j].n - nodes[j].n = (IF nodes[j].s = last'.a[2] THEN Paths(1, j) ELSE 0)]_<<vars, pushed, placed>>
\* with filters, no more often than that
Prop_Most == [][last'.op = "push" /\ last' # last => \A j \in 1..N : nodes[j].k = 1 =>
                  nodes'[j].n - nodes[j].n \in 0..(IF nodes[j].s = last'.a[2] THEN Paths(1, j) ELSE 0)]_<<vars, pushed, placed>>
\* what arrives has the length of something that was pushed: of the axes each is used once
Mag(v) == {{v[1] * v[1]}, {v[2] * v[2]}, {v[3] * v[3]}}
Sizes == {Mag(v) : v \in Vs} \cup {Mag(Z)}
NoMed == ~\E i \in 1..N : nodes[i].k = 3 /\ nodes[i].st = 2
Inv_Axes == nodes # <<>> /\ NoMed => \A j \in 1..N : nodes[j].k = 1 => Mag(nodes[j].dat) \in Sizes
\* an error is only ever reported if one was given
Inv_Err == nodes # <<>> => \A j \in 1..N : nodes[j].he = 0 => nodes[j].err = Z
Prop_Fresh == [][last'.op = "take" /\ last'.r[1] = 1 => nodes'[last'.a[1]].fresh = 0]_<<vars, pushed, placed>>
Dump == PrintT(<<"@E", ToJson(Dumped), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<nodes', now', pushed', placed'>>)>>)
====
