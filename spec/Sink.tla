------------------------------- MODULE Sink -------------------------------
(* StringBuilderSink: the BufferAccepter that collects, and the contract every accepter owes its caller: bytes are claimed from the
   front only, and the answer says whether nothing (-1), a part (0) or all (1) of the offered buffer was claimed. *)
EXTENDS Util, TLC
VARIABLES cap, buf, got, last
vars == <<cap, buf, got, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Room == MaxI(0, cap - Len(got))
Obs == <<buf, got, IF cap < 0 THEN <<>> ELSE <<Room>>>>
New(c) == cap' = c /\ buf' = <<>> /\ got' = <<>> /\ Res("new", <<c>>, <<>>, <<0>>)
Feed(b) == buf' = buf \o b /\ UNCHANGED <<cap, got>> /\ Res("feed", <<>>, <<b>>, <<0>>)
\* the caller offers what it holds
Push == LET n == MinI(Room, Len(buf)) IN
  /\ UNCHANGED cap
  /\ got' = (got \o Take(buf, n)) /\ buf' = Drop(buf, n)
  /\ Res("push", <<>>, <<>>, <<IF n = 0 THEN -1 ELSE IF n = Len(buf) THEN 1 ELSE 0>>)
\* the collected bytes are also an ordinary string, to which others may append beyond the limit
Extra(b) == got' = got \o b /\ UNCHANGED <<cap, buf>> /\ Res("extra", <<>>, <<b>>, <<0>>)
Drain(n) == got' = Drop(got, n) /\ UNCHANGED <<cap, buf>> /\ Res("drain", <<n>>, <<>>, <<0>>)
Do(op, a, d) == CASE op = "new" -> New(a[1]) [] op = "feed" -> Feed(d[1]) [] op = "push" -> Push [] op = "extra" -> Extra(d[1])
                  [] op = "drain" -> Drain(a[1]) [] OTHER -> FALSE
Init == cap = -1 /\ buf = <<>> /\ got = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
