------------------------------ MODULE AxisPipe ------------------------------
(* Pipelines for vectors of three: forks, changes of axes, filters and termini, wired into a directed graph. *)
EXTENDS Util, TLC
VARIABLES nodes,      \* one record per place: kind 0 none, 1 terminus, 2 fork, 3 filter, 4 convention, 5 somebody else's sink
          now, last
vars == <<nodes, now, last>>
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
Z == <<0, 0, 0>>
Blank == [k |-> 0, s |-> 0, a |-> 0, b |-> 0, st |-> 0, w |-> 0, c |-> 0, dat |-> Z, err |-> Z, he |-> 0, fresh |-> 0, n |-> 0, at |-> 0, mem |-> <<>>, full |-> 0]
Places == Len(nodes)
\* what an observer sees of a node
Seen(x) == CASE x.k = 1 -> <<1, x.n, x.at, x.fresh, x.he>> \o x.dat \o x.err
             [] x.k = 3 -> <<3, Bit(x.mem # <<>>), x.full, x.n, x.he>> \o x.err
             [] OTHER -> <<x.k>>
Obs == [i \in 1..Places |-> Seen(nodes[i])]

\* ---- axes. A gnomon is given by the axis that takes part (0 none, 1 X, 2 Y, 3 Z), its direction, and the hand
Axis(g) == g % 4
Flips(g) == LET neg == (g \div 4) % 2 left == g \div 8 IN g # 0 /\ neg # left
Turn(g, v) == LET m == IF Flips(g) THEN -1 ELSE 1 IN
  CASE Axis(g) = 2 -> <<m * v[2], v[3], v[1]>> [] Axis(g) = 3 -> <<m * v[3], v[1], v[2]>> [] OTHER -> <<m * v[1], v[2], v[3]>>
Gnomons == {0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15}

Kth(s, k) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : Cardinality({i \in 1..Len(s) : s[i] < x}) < k /\ k <= Cardinality({i \in 1..Len(s) : s[i] <= x})
Med(s) == IF Len(s) % 2 = 1 THEN Kth(s, (Len(s) + 1) \div 2) ELSE (Kth(s, Len(s) \div 2) + Kth(s, (Len(s) \div 2) + 1)) \div 2
MedV(m) == [i \in 1..3 |-> Med([k \in 1..Len(m) |-> m[k][i]])]

\* A vector d of sense s, with error e (or none: <<>>), arrives at node i of N.
\* What comes of it: the nodes, the answer, and what was told to callbacks and foreign sinks, in order.
RECURSIVE Push(_, _, _, _, _)
Push(N, i, s, d, e) ==
  LET x == N[i]
      Told(v, er) == IF er = <<>> THEN v \o <<0>> ELSE v \o <<1>> \o er IN
  CASE x.k = 1 ->       \* a terminus keeps what is of its sense
         IF s # x.s THEN [N |-> N, r |-> -1, log |-> <<>>]
         ELSE LET y == [x EXCEPT !.n = x.n + 1, !.at = now, !.dat = d, !.err = (IF e # <<>> THEN e ELSE x.err), !.he = (IF e # <<>> THEN 1 ELSE x.he),
                                 !.fresh = (IF x.c = 1 THEN 0 ELSE 1)] IN
              [N |-> [N EXCEPT ![i] = y], r |-> 0, log |-> IF x.c = 0 THEN <<>> ELSE <<i, s, y.n>> \o Told(d, IF y.he = 1 THEN y.err ELSE <<>>)]
    [] x.k = 2 ->       \* a fork tries both sides
         LET l == IF x.a = 0 THEN [N |-> N, r |-> -2, log |-> <<>>] ELSE Push(N, x.a, s, d, e)
             q == IF x.b = 0 THEN [N |-> l.N, r |-> -2, log |-> <<>>] ELSE Push(l.N, x.b, s, d, e) IN
         [N |-> q.N, r |-> -2 + Bit(l.r = 0) + Bit(q.r = 0), log |-> l.log \o q.log]
    [] x.k = 4 ->
         IF x.a = 0 THEN [N |-> N, r |-> -2, log |-> <<>>]
         ELSE Push(N, x.a, s, Turn(x.c, d), IF e = <<>> THEN <<>> ELSE Turn(x.c, e))
    [] x.k = 5 -> [N |-> N, r |-> x.c, log |-> <<i, s>> \o Told(d, e)]
    [] x.k = 3 ->       \* a filter feeds on its sense, and passes other senses on
         LET f == IF x.mem = <<>> THEN [x EXCEPT !.mem = [q \in 1..x.w |-> Z]] ELSE x
             N1 == [N EXCEPT ![i] = f] IN
         IF s # x.s THEN (IF x.a = 0 THEN [N |-> N1, r |-> -1, log |-> <<>>]
                          ELSE LET p == Push(N1, x.a, s, d, e) IN [N |-> p.N, r |-> IF p.r = 0 THEN 0 ELSE -1, log |-> p.log])
         ELSE LET m == [f.mem EXCEPT ![(f.n % x.w) + 1] = d]
                  fu == IF f.n + 1 >= x.w THEN 1 ELSE 0
                  out == IF x.st = 2 THEN (IF fu = 1 THEN MedV(m) ELSE f.dat) ELSE d
                  g == [f EXCEPT !.mem = m, !.n = f.n + 1, !.full = fu, !.dat = out, !.fresh = (IF fu = 1 THEN 1 ELSE f.fresh),
                                 !.err = (IF fu = 1 /\ e # <<>> THEN e ELSE f.err), !.he = (IF fu = 1 /\ e # <<>> THEN 1 ELSE f.he)]
                  N2 == [N EXCEPT ![i] = g] IN
              IF fu = 0 \/ x.a = 0 THEN [N |-> N2, r |-> 0, log |-> <<>>]
              ELSE LET p == Push(N2, x.a, s, out, IF g.he = 1 THEN g.err ELSE <<>>) IN
                   [N |-> [p.N EXCEPT ![i].fresh = Bit(p.r < 0)], r |-> 0, log |-> p.log]

Reset(n) == nodes' = [i \in 1..n |-> Blank] /\ now' = 0 /\ Res("new", <<n>>, <<0>>)
\* edges lead only to later places
Fine(i, a, b) == i \in 1..Places /\ \A j \in {a, b} : j = 0 \/ (j > i /\ j <= Places /\ nodes[j].k # 0)
Node(i, k, s, a, b, st, w, c) ==
  IF ~Fine(i, a, b) \/ nodes[i].k # 0 \/ (k = 3 /\ w < 1) THEN UNCHANGED <<nodes, now>> /\ Res("node", <<i, k, s, a, b, st, w, c>>, <<-99>>)
  ELSE nodes' = [nodes EXCEPT ![i] = [Blank EXCEPT !.k = k, !.s = s, !.a = a, !.b = b, !.st = st, !.w = w, !.c = c]] /\ UNCHANGED now
       /\ Res("node", <<i, k, s, a, b, st, w, c>>, <<0>>)
\* a node is wired elsewhere
Link(i, a, b) ==
  IF ~Fine(i, a, b) \/ ~(nodes[i].k \in {2, 3, 4}) THEN UNCHANGED <<nodes, now>> /\ Res("link", <<i, a, b>>, <<-99>>)
  ELSE nodes' = [nodes EXCEPT ![i].a = a, ![i].b = b] /\ UNCHANGED now /\ Res("link", <<i, a, b>>, <<0>>)
PushAt(i, s, d, e, arg) ==
  IF ~(i \in 1..Places) \/ nodes[i].k = 0 THEN UNCHANGED <<nodes, now>> /\ Res("push", arg, <<-99>>)
  ELSE LET p == Push(nodes, i, s, d, e) IN nodes' = p.N /\ UNCHANGED now /\ Res("push", arg, <<p.r>> \o p.log)
\* what is kept is taken, with its error and number, and no longer fresh
TakeAt(i) ==
  IF ~(i \in 1..Places) \/ ~(nodes[i].k \in {1, 3}) THEN UNCHANGED <<nodes, now>> /\ Res("take", <<i>>, <<-99>>)
  ELSE /\ nodes' = [nodes EXCEPT ![i].fresh = 0] /\ UNCHANGED now
       /\ Res("take", <<i>>, <<nodes[i].fresh>> \o nodes[i].dat \o nodes[i].err \o (IF nodes[i].k = 1 THEN <<nodes[i].n>> ELSE <<>>))
Clear(i) ==
  IF ~(i \in 1..Places) \/ nodes[i].k # 1 THEN UNCHANGED <<nodes, now>> /\ Res("clear", <<i>>, <<-99>>)
  ELSE nodes' = [nodes EXCEPT ![i] = [Blank EXCEPT !.k = 1, !.s = nodes[i].s, !.c = nodes[i].c]] /\ UNCHANGED now /\ Res("clear", <<i>>, <<0>>)
Clock(dt) == now' = now + dt /\ UNCHANGED nodes /\ Res("clock", <<dt>>, <<0>>)
Do(op, a) ==
  CASE op = "new" -> Reset(a[1]) [] op = "node" -> Node(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]) [] op = "link" -> Link(a[1], a[2], a[3])
    [] op = "push" -> PushAt(a[1], a[2], SubSeq(a, 3, 5), IF a[6] = 1 THEN SubSeq(a, 7, 9) ELSE <<>>, a)
    [] op = "take" -> TakeAt(a[1]) [] op = "clear" -> Clear(a[1]) [] op = "clock" -> Clock(a[1]) [] OTHER -> FALSE
Init == nodes = <<>> /\ now = 0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
