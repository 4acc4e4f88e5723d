---- MODULE MC_Shapes ----
(* The shapes are what they are called: judged on every small instance. *)
EXTENDS Image
CONSTANTS N, R, T
VARIABLES k
Pt == (0..N) \X (0..N)
Small == (0..T) \X (0..T)
Kinds == { <<"line", a, b>> : a \in Pt, b \in Pt } \cup { <<"circle", r>> : r \in 0..R }
         \cup { <<"round", w, h, r>> : w \in 1..9, h \in 1..9, r \in 0..5 } \cup { <<"tri", a, b, c>> : a \in Small, b \in Small, c \in Small }
MCInit == Init /\ k \in Kinds
MCNext == UNCHANGED <<vars, k>>
MCSpec == MCInit /\ [][MCNext]_<<vars, k>>
View == k
L(a, b) == { p \in Pt : OnLine(p, a[1], a[2], b[1], b[2]) }
Near(p, q) == Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
Inv_Line == k[1] = "line" =>
  LET a == k[2]  b == k[3]  S == L(a, b)  dx == Abs(a[1] - b[1])  dy == Abs(a[2] - b[2]) IN
  /\ a \in S /\ b \in S /\ Cardinality(S) = MaxI(dx, dy) + 1 /\ S = L(b, a)
  /\ \A p \in S : 2 * Abs((b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])) <= MaxI(dx, dy)
  /\ \A p \in S : p = a \/ \E q \in S : q # p /\ Near(p, q)
Inv_Circle == k[1] = "circle" =>
  LET r == k[2]  C == Circle(r) IN
  /\ \A p \in C : Abs(p[1] * p[1] + p[2] * p[2] - r * r) <= r
  /\ \A x \in 0..r : Half(C, x) >= 0 /\ <<Half(C, x), x>> \in C /\ (x < r => Half(C, x + 1) <= Half(C, x))
  /\ \A x, y \in 0..(r + 1) : InCircle(C, <<x, y>>, 0, 0) => x * x + y * y <= r * r + r
  /\ \A x, y \in 0..(r + 1) : x * x + y * y <= r * r - r => InCircle(C, <<x, y>>, 0, 0)
Inv_Round == k[1] = "round" =>
  LET w == k[2]  h == k[3]  r == Radius(w, h, k[4])  C == Circle(r)  A == Arc(0, r, r)  S == (0..12) \X (0..12)
      In_(p) == InRound(C, p, 1, 1, w, h, r)  On_(p) == OnRound(A, p, 1, 1, w, h, r) IN
  \A p \in S : /\ (w > 2 * r /\ h > 2 * r /\ On_(p) => In_(p)) /\ (In_(p) => InRect(p, 1, 1, w, h)) /\ (r = 0 => In_(p) = InRect(p, 1, 1, w, h) /\ On_(p) = OnEdge(p, 1, 1, w, h))
               /\ (In_(p) => In_(<<w + 1 - p[1], p[2]>>) \/ w + 1 - p[1] < 0) /\ (On_(p) => On_(<<p[1], h + 1 - p[2]>>))
               /\ (In_(p) /\ ~On_(p) => \A d \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} : In_(<<p[1] + d[1], p[2] + d[2]>>))
Inv_Tri == k[1] = "tri" =>
  LET a == k[2]  b == k[3]  c == k[4]  In_(p) == InTriangle(p, a, b, c) IN
  /\ In_(a) /\ In_(b) /\ In_(c)
  /\ \A p \in Small : In_(p) => /\ p[1] >= MinI(a[1], MinI(b[1], c[1])) /\ p[1] <= MaxI(a[1], MaxI(b[1], c[1]))
                                /\ p[2] >= MinI(a[2], MinI(b[2], c[2])) /\ p[2] <= MaxI(a[2], MaxI(b[2], c[2]))
  /\ \A p \in Small, i \in 1..3 :      \* what is strictly inside by each side is filled
       LET s(u, v) == (v[1] - u[1]) * (p[2] - u[2]) - (v[2] - u[2]) * (p[1] - u[1]) IN
       ((s(a, b) > 0 /\ s(b, c) > 0 /\ s(c, a) > 0) \/ (s(a, b) < 0 /\ s(b, c) < 0 /\ s(c, a) < 0)) => In_(p)
====
