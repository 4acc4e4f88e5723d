---------------------------- MODULE RingBuffer ----------------------------
(* RingBuffer<T>: a bounded FIFO with bulk transfer, peeking and culling.   *)
(* One action per public call; every call is atomic (single-threaded use).  *)
EXTENDS Util, TLC

VARIABLES cap,   \* capacity fixed at construction
          q,     \* contents, oldest first
          last   \* the last call and its result (observation only)

vars == <<cap, q, last>>

Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Vacancy == cap - Len(q)
Has(x) == \E i \in 1..Len(q) : q[i] = x

\* What any user can read back at any moment.
Obs == <<<<Len(q), cap - Len(q), IF q = <<>> THEN 1 ELSE 0, cap>>>>

New(c) == cap' = c /\ q' = <<>> /\ Res("new", <<c>>, <<>>, <<0>>)

Insert(x) ==
  /\ UNCHANGED cap
  /\ IF Vacancy > 0 THEN q' = Append(q, x) /\ Res("insert", <<x>>, <<>>, <<0>>)
     ELSE UNCHANGED q /\ Res("insert", <<x>>, <<>>, <<-1>>)

InsertIfAbsent(x) ==
  /\ UNCHANGED cap
  /\ IF Has(x) THEN UNCHANGED q /\ Res("absent", <<x>>, <<>>, <<-2>>)
     ELSE IF Vacancy > 0 THEN q' = Append(q, x) /\ Res("absent", <<x>>, <<>>, <<0>>)
     ELSE UNCHANGED q /\ Res("absent", <<x>>, <<>>, <<-1>>)

\* Takes the longest prefix that fits.
InsertN(xs) ==
  /\ UNCHANGED cap
  /\ IF xs = <<>> \/ Vacancy = 0 THEN UNCHANGED q /\ Res("insertN", <<>>, <<xs>>, <<-1>>)
     ELSE LET n == MinI(Len(xs), Vacancy) IN
          q' = q \o SubSeq(xs, 1, n) /\ Res("insertN", <<>>, <<xs>>, <<n>>)

Get == /\ UNCHANGED cap
       /\ IF q = <<>> THEN UNCHANGED q /\ Res("get", <<>>, <<>>, <<0>>)
          ELSE q' = Tail(q) /\ Res("get", <<>>, <<>>, <<Head(q)>>)

Peek == UNCHANGED <<cap, q>> /\ Res("peek", <<>>, <<>>, <<IF q = <<>> THEN 0 ELSE Head(q)>>)

GetN(n) ==
  /\ UNCHANGED cap
  /\ IF n = 0 THEN UNCHANGED q /\ Res("getN", <<n>>, <<>>, <<-1>>)
     ELSE LET k == MinI(n, Len(q)) IN
          q' = SubSeq(q, k + 1, Len(q)) /\ Res("getN", <<n>>, <<>>, <<k>> \o SubSeq(q, 1, k))

PeekN(n) ==
  /\ UNCHANGED <<cap, q>>
  /\ IF n = 0 THEN Res("peekN", <<n>>, <<>>, <<-1>>)
     ELSE LET k == MinI(n, Len(q)) IN Res("peekN", <<n>>, <<>>, <<k>> \o SubSeq(q, 1, k))

\* Only defined here for indices that address a stored element.
PeekAt(i) == /\ i < Len(q)
             /\ UNCHANGED <<cap, q>> /\ Res("peekAt", <<i>>, <<>>, <<q[i + 1]>>)

Cull(n) ==
  /\ UNCHANGED cap
  /\ IF n = 0 THEN UNCHANGED q /\ Res("cull", <<n>>, <<>>, <<-1>>)
     ELSE LET k == MinI(n, Len(q)) IN
          q' = SubSeq(q, k + 1, Len(q)) /\ Res("cull", <<n>>, <<>>, <<k>>)

HasVal(x) == UNCHANGED <<cap, q>> /\ Res("contains", <<x>>, <<>>, <<IF Has(x) THEN 1 ELSE 0>>)

Clear == UNCHANGED cap /\ q' = <<>> /\ Res("clear", <<>>, <<>>, <<0>>)

Do(op, a, d) ==
  CASE op = "new"      -> New(a[1])
    [] op = "insert"   -> Insert(a[1])
    [] op = "absent"   -> InsertIfAbsent(a[1])
    [] op = "insertN"  -> InsertN(d[1])
    [] op = "get"      -> Get
    [] op = "peek"     -> Peek
    [] op = "getN"     -> GetN(a[1])
    [] op = "peekN"    -> PeekN(a[1])
    [] op = "peekAt"   -> PeekAt(a[1])
    [] op = "cull"     -> Cull(a[1])
    [] op = "contains" -> HasVal(a[1])
    [] op = "clear"    -> Clear
    [] OTHER           -> FALSE

Init == cap = -1 /\ q = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
