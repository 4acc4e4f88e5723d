------------------------------ MODULE M2MMsgs -------------------------------
(* Headers and messages of the machine-to-machine link by themselves: made, changed, written, read, and answered. *)
EXTENDS M2MNode
VARIABLES h, m, rnd, last
vars == <<h, m, rnd, last>>
\* m.op: 0 inbound, 1 outbound; acc: what came in, or what goes out; done: it can be sent; sent, rt: attempts left
NoM == [op |-> -1]
Hdr(c, f, id, len) == [c |-> c, f |-> f, len |-> len, id |-> id, k |-> Chk(c, f, len)]
\* the header with room for a payload of so many bytes; the flag's length bits are replaced
WithLen(x, pl) == LET rest == 3 + IdL(x.f) + pl b == LenBytes(rest) f == (x.f % 16) + 16 * b + 64 * IdL(x.f)
                  IN Hdr(x.c, f, x.id, rest + b)
TooLong(x, pl) == 3 + IdL(x.f) + pl + LenBytes(3 + IdL(x.f) + pl) > 16777213
Low3(i) == i % 16777216
\* constructor: the sizes are the constructor's business, and a question gets an ID unless it is a sync
Made(c, pl, f, i, r) == LET auto == f % 2 = 1 /\ i = 0 /\ c # 1
                            id == IF auto THEN Low3(r + 1) ELSE Low3(i)
                        IN <<WithLen(Hdr(c, (f % 4) + 64 * NB(id), id, 0), pl), IF auto THEN r + 1 ELSE r>>
\* as the header itself judges: it doesn't know the message around it
Sane(x) == IF x = NoHdr THEN FALSE ELSE HdrValid(x)
IsSync(x) == x.c = 1 /\ x.f \in 16..19 /\ x.len = 4 /\ x.k = Chk(1, x.f, 4)
HObs(x) == IF x = NoHdr THEN <<>> ELSE <<x.c, x.f, x.len, x.id, x.k, HLen(x.f), PayLen(x), Bit(Sane(x)), Bit(IsSync(x)), Bit(Exp(x.f)), Bit(Rep(x.f))>>
MObs(x) == IF x.op = -1 THEN <<>> ELSE <<x.op, x.h.c, Bit(Exp(x.h.f)), Bit(Rep(x.h.f)), x.h.id, Bit(Sane(x.h)), Bit(x.sent), Bit(x.ackd)>>
             \o (IF x.op = 0 THEN <<Bit(Len(x.acc) = PayLen(x.h)), IF Len(x.acc) = PayLen(x.h) THEN ReadPay(x.acc) ELSE -3>> ELSE <<>>)
Obs == <<HObs(h), MObs(m)>>
Out(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
New(op, x, acc) == [op |-> op, h |-> x, acc |-> acc, sent |-> FALSE, ackd |-> FALSE, rt |-> 3]
\* a message takes what it lacks
Feed(x, b) == LET want == PayLen(x.h) - Len(x.acc) IN <<[x EXCEPT !.acc = @ \o Take(b, want)], Drop(b, IF want < Len(b) THEN want ELSE Len(b))>>
SetFlags(x, e, r) == [x EXCEPT !.f = @ - (@ % 4) + (IF e THEN 1 ELSE 0) + (IF r THEN 2 ELSE 0)]
\* the message is given a payload to send: refused if the header can't carry it
Load(x, pl) == LET g == WithLen(x.h, Len(pl)) IN
               IF HdrValid(g) THEN <<[x EXCEPT !.h = g, !.acc = HdrBytes(g) \o pl], 0>> ELSE <<[x EXCEPT !.h = g, !.acc = <<>>], -2>>
\* calls which make no sense yet
NotYet(op) == \/ op \in {"setlen", "flag", "ser"} /\ h = NoHdr
              \/ op \in {"pay", "reply", "sent", "ackd", "retry"} /\ m.op = -1
              \/ op = "feed" /\ m.op # 0
              \/ op = "write" /\ (m.op # 1 \/ m.acc = <<>>)
Do(op, a, d) ==
  CASE NotYet(op) -> Out(op, a, d, <<-99>>) /\ UNCHANGED <<h, m, rnd>>
    [] op = "begin" -> Out(op, a, d, <<0>>) /\ UNCHANGED <<h, m, rnd>>
    [] op = "mk" -> LET q == Made(a[1], a[2], a[3], a[4], rnd) IN h' = q[1] /\ rnd' = q[2] /\ Out(op, a, d, <<0>>) /\ UNCHANGED m
    [] op = "setlen" /\ ~NotYet(op) ->    \* a[1] < 0: 2^32 + a[1]
         IF a[1] < 0 \/ TooLong(h, a[1]) THEN Out(op, a, d, <<0>>) /\ UNCHANGED <<h, m, rnd>>
         ELSE h' = WithLen(h, a[1]) /\ Out(op, a, d, <<1>>) /\ UNCHANGED <<m, rnd>>
    [] op = "flag" /\ ~NotYet(op) -> h' = (LET x == SetFlags(h, a[1] = 1, a[2] = 1) IN [x EXCEPT !.k = Chk(x.c, x.f, x.len)])
                                   /\ Out(op, a, d, <<0>>) /\ UNCHANGED <<m, rnd>>
    [] op = "ser" /\ ~NotYet(op) -> Out(op, a, d, IF Sane(h) THEN <<1>> \o HdrBytes(h) ELSE <<0>>) /\ UNCHANGED <<h, m, rnd>>
    [] op = "parse" -> (LET q == Parse(d[1]) IN h' = (IF q[1] >= 0 THEN q[2] ELSE NoHdr) /\ Out(op, a, d, <<q[1], Len(d[1])>>)) /\ UNCHANGED <<m, rnd>>
    [] op = "unser" -> LET q == Parse(d[1]) IN
         /\ UNCHANGED <<h, rnd>>
         /\ IF q[1] < 0 THEN m' = NoM /\ Out(op, a, d, <<0, Len(d[1])>>)
            ELSE LET f == Feed(New(0, q[2], <<>>), Drop(d[1], HLen(q[2].f))) IN m' = f[1] /\ Out(op, a, d, <<1, Len(f[2])>>)
    [] op = "feed" /\ ~NotYet(op) ->
         LET f == Feed(m, d[1]) IN m' = f[1] /\ Out(op, a, d, <<Bit(Len(f[1].acc) = PayLen(m.h)), Len(f[2])>>) /\ UNCHANGED <<h, rnd>>
    [] op = "out" -> (LET q == Made(a[1], 0, a[2], a[3], rnd) l == Load(New(1, q[1], <<>>), Payload(a[4], a[5]))
                      IN m' = l[1] /\ rnd' = q[2] /\ Out(op, a, d, <<l[2]>>)) /\ UNCHANGED h
    [] op = "pay" /\ ~NotYet(op) -> IF m.op = 0 THEN Out(op, a, d, <<-1>>) /\ UNCHANGED <<h, m, rnd>>
                     ELSE (LET l == Load(m, Payload(a[1], a[2])) IN m' = l[1] /\ Out(op, a, d, <<l[2]>>)) /\ UNCHANGED <<h, rnd>>
    [] op = "reply" /\ ~NotYet(op) ->
         IF m.op = 1 THEN Out(op, a, d, <<-1>>) /\ UNCHANGED <<h, m, rnd>>
         ELSE (LET l == Load([m EXCEPT !.op = 1, !.h = SetFlags(@, a[3] = 1, TRUE)], Payload(a[1], a[2])) IN m' = l[1] /\ Out(op, a, d, <<l[2]>>)) /\ UNCHANGED <<h, rnd>>
    \* only what was loaded can be written, any number of times, and reads back as it was
    [] op = "write" /\ ~NotYet(op) -> Out(op, a, d, <<0>> \o m.acc) /\ UNCHANGED <<h, m, rnd>>
    [] op = "sent" /\ ~NotYet(op) -> m' = [m EXCEPT !.sent = TRUE] /\ Out(op, a, d, <<0>>) /\ UNCHANGED <<h, rnd>>
    [] op = "ackd" /\ ~NotYet(op) -> m' = [m EXCEPT !.ackd = TRUE] /\ Out(op, a, d, <<0>>) /\ UNCHANGED <<h, rnd>>
    [] op = "retry" /\ ~NotYet(op) -> m' = [m EXCEPT !.rt = IF @ > 0 THEN @ - 1 ELSE 0] /\ Out(op, a, d, <<Bit(m.rt > 0)>>) /\ UNCHANGED <<h, rnd>>
    \* at the end nothing is left allocated
    [] op = "end" -> h' = NoHdr /\ m' = NoM /\ rnd' = 0 /\ Out(op, a, d, <<0>>)
    [] OTHER -> FALSE
Init == h = NoHdr /\ m = NoM /\ rnd = 0 /\ last = [op |-> "", a |-> <<>>, d |-> <<>>, r |-> <<>>]
=============================================================================
