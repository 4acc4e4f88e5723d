------------------------------ MODULE M2MPair -------------------------------
(* Two ends of a link (1 and 2), and what is on the wires between them: w[1] from 1 to 2, w[2] from 2 to 1.  Bytes arrive in
   order, in whatever portions, and may be lost or altered on the way.  Both ends draw IDs from the same well. *)
EXTENDS M2MNode
VARIABLES p, last
vars == <<p, last>>
Void == [up |-> FALSE]
\* what a call made one end say goes onto its wire; IDs drawn are gone for both
Acted(x, i, n) == [x EXCEPT !.n = IF i = 1 THEN <<n, [@[2] EXCEPT !.rnd = n.rnd, !.ev = <<>>]>> ELSE <<[@[1] EXCEPT !.rnd = n.rnd, !.ev = <<>>], n>>, !.w[i] = @ \o Flat(n.out)]
Calm(x) == [x EXCEPT !.n = <<Begin(@[1]), Begin(@[2])>>]
NodeObs(n) == <<n.st, Bit(Connected(n)), Bit(Idle(n)), Bit(n.sc), n.unack, n.o.mtu - Len(n.inb)>>
Obs == IF ~p.up THEN <<>> ELSE <<NodeObs(p.n[1]), NodeObs(p.n[2]), p.n[1].ev, p.n[2].ev, p.w[1], p.w[2]>>
Res(op, a, q) == p' = q[1] /\ last' = [op |-> op, a |-> a, d |-> <<>>, r |-> <<q[2]>>]
Call(op, a, q) == Res(op, a, <<Acted(p, a[1], q[1]), q[2]>>)
\* so many bytes arrive
Arrive(x, i, k) == LET c == [x EXCEPT !.w[i] = Drop(@, k)] IN Acted(c, 3 - i, Push(c.n[3 - i], Take(x.w[i], k))[1])
Wait(x, d) == LET c == Calm(x) IN [c EXCEPT !.n = <<[@[1] EXCEPT !.t = @ + d], [@[2] EXCEPT !.t = @ + d]>>]
NewEnd(fl, mto, kal, mtu, t, r) == [NewNode([mto |-> mto, kal |-> kal, mtu |-> mtu, maxout |-> 8, fl |-> fl], t, r) EXCEPT !.eff = 1, !.cb = TRUE]
Fresh2(a) == [up |-> TRUE, n |-> <<NewEnd(a[1], a[3], a[4], a[5], a[6], a[7]), NewEnd(a[2], a[3], a[4], a[5], a[6], a[7])>>, w |-> <<<<>>, <<>>>>]
\* both ends go on, and everything arrives
Turn(x, d) == LET q1 == Acted(x, 1, Poll(x.n[1])[1]) q2 == Acted(q1, 2, Poll(q1.n[2])[1])
                  q3 == Arrive(q2, 1, Len(q2.w[1])) q4 == Arrive(q3, 2, Len(q3.w[2]))
              IN Wait(q4, d)
RECURSIVE Turns(_, _, _)
Turns(x, d, k) == IF k = 0 THEN x ELSE LET y == Turn(x, d) IN IF y.up THEN Turns(y, d, k - 1) ELSE y     \* the test forces y's evaluation
\* a: end first, where the call has one
Do(op, a, d) ==
  CASE op = "new" -> Res(op, a, <<Fresh2(a), 0>>)
    [] op = "poll" -> Call(op, a, Poll(p.n[a[1]]))
    [] op = "arrive" -> LET k == IF a[2] < Len(p.w[a[1]]) THEN a[2] ELSE Len(p.w[a[1]]) IN Res(op, a, <<Arrive(p, a[1], k), k>>)
    [] op = "lose" -> LET c == Calm(p) b == c.w[a[1]] IN     \* a[3] bytes from position a[2] on
                      IF a[2] > Len(b) THEN Res(op, a, <<c, 0>>) ELSE Res(op, a, <<[c EXCEPT !.w[a[1]] = Take(b, a[2] - 1) \o Drop(b, a[2] - 1 + a[3])], 0>>)
    [] op = "spoil" -> LET c == Calm(p) b == c.w[a[1]] IN
                      IF a[2] > Len(b) THEN Res(op, a, <<c, 0>>) ELSE Res(op, a, <<[c EXCEPT !.w[a[1]][a[2]] = a[3]], 0>>)
    [] op = "pol" -> Call(op, a, <<[Begin(p.n[a[1]]) EXCEPT !.pol = a[2]], 0>>)
    [] op = "send" -> Call(op, a, Offer(p.n[a[1]], a[2], a[3], a[4] = 1))
    [] op = "hangup" -> Call(op, a, Hangup(p.n[a[1]], a[2] = 1))
    [] op = "reset" -> Call(op, a, OffHook(p.n[a[1]]))
    [] op = "wait" -> Res(op, a, <<Wait(p, a[1]), 0>>)
    [] op = "turns" -> Res(op, a, <<Turns(p, a[1], a[2]), 0>>)
    [] op = "drop" -> p' = Void /\ last' = [op |-> op, a |-> a, d |-> <<>>, r |-> <<0>>]
    [] OTHER -> FALSE
Init == p = Void /\ last = [op |-> "", a |-> <<>>, d |-> <<>>, r |-> <<>>]
=============================================================================
