------------------------------- MODULE M2MLink ------------------------------
(* One end of a link, its application, and a transport which may carry anything. *)
EXTENDS M2MNode
VARIABLES n, last
vars == <<n, last>>
Void == [st |-> -1]
RECURSIVE Frames(_)
Frames(fs) == IF fs = <<>> THEN <<>> ELSE <<Len(Head(fs))>> \o Head(fs) \o Frames(Tail(fs))
ObsOf(x) == <<<<x.st, Bit(Connected(x)), Bit(Idle(x)), Bit(x.sc), x.unack, x.o.mtu - Len(x.inb)>>, Frames(x.out), x.ev, <<x.log>>>>
Obs == IF n.st = -1 THEN <<>> ELSE ObsOf(n)
Res(op, a, d, q) == n' = q[1] /\ last' = [op |-> op, a |-> a, d |-> d, r |-> <<q[2]>>]
Keep(x) == <<Begin(x), 0>>
Do(op, a, d) ==
  CASE op = "new" -> Res(op, a, d, <<[NewNode([mto |-> a[1], kal |-> a[2], mtu |-> a[3], maxout |-> 8, fl |-> a[4]], a[5], a[6])
                                      EXCEPT !.svc = SubSeq(<<0, 0>>, 1, a[7])], 0>>)
    [] op = "eff" -> Res(op, a, d, <<[Begin(n) EXCEPT !.eff = a[1]], 0>>)
    [] op = "cb" -> Res(op, a, d, <<[Begin(n) EXCEPT !.cb = TRUE], 0>>)
    [] op = "pol" -> Res(op, a, d, <<IF a[1] = 0 THEN [Begin(n) EXCEPT !.pol = a[2]] ELSE IF a[1] <= Len(n.svc) THEN [Begin(n) EXCEPT !.svc[a[1]] = a[2]] ELSE Begin(n), 0>>)
    [] op = "poll" -> Res(op, a, d, Poll(n))
    [] op = "push" -> Res(op, a, d, Push(n, d[1]))
    [] op = "hangup" -> Res(op, a, d, Hangup(n, a[1] = 1))
    [] op = "reset" -> Res(op, a, d, OffHook(n))
    [] op = "send" -> Res(op, a, d, Offer(n, a[1], a[2], a[3] = 1))
    [] op = "wlog" -> Res(op, a, d, LET q == WriteLog(n, a[1], a[2] = 1) IN <<q[1], Bit(q[2] = 0) - 1>>)
    [] op = "wait" -> Res(op, a, d, <<[Begin(n) EXCEPT !.t = @ + a[1]], 0>>)
    [] op = "drop" -> n' = Void /\ last' = [op |-> op, a |-> a, d |-> d, r |-> <<0>>]
    [] OTHER -> FALSE
Init == n = Void /\ last = [op |-> "", a |-> <<>>, d |-> <<>>, r |-> <<>>]
=============================================================================
