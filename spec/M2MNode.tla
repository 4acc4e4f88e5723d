------------------------------ MODULE M2MNode -------------------------------
(* One end of a machine-to-machine link, as a function of its record: what it does with bytes from its transport, with
   the application's calls, and with time.  M2MLink.tla drives one end against anything; M2MPair.tla joins two ends. *)
EXTENDS M2MFrame

\* states
UNINIT == 0  SETUP == 1  RESYNC == 2  TENTATIVE == 3  AUTH == 4  LIVE == 5  HANGING == 6  HUNGUP == 7
\* outbound priorities
PAck == 5  PApp == 10  PInt == 20
WayMax == 8
Never == -1000000

\* payloads which the application sends: none, {"k": small number}, {"k": a string of n x's}
Xs(n) == [i \in 1..n |-> 120]
StrHead(n) == IF n < 24 THEN <<96 + n>> ELSE IF n < 256 THEN <<120, n>> ELSE <<121, n \div 256, n % 256>>
Payload(kind, v) == CASE kind = 0 -> <<>>
                      [] kind = 1 -> <<161, 97, 107, v>>
                      [] kind = 2 -> <<161, 97, 107>> \o StrHead(v) \o Xs(v)
\* {"b": "zz..z"}
LogPay(n) == <<161, 97, 98>> \o StrHead(n) \o [i \in 1..n |-> 122]
\* what the application makes of a payload: -1 none, the number, 1000 + the string's length, -9 anything (left open)
ReadPay(p) ==
  IF p = <<>> THEN -1
  ELSE IF Len(p) = 4 /\ SubSeq(p, 1, 3) = <<161, 97, 107>> /\ p[4] < 24 THEN p[4]
  ELSE IF Len(p) > 4 /\ SubSeq(p, 1, 3) = <<161, 97, 107>> /\ \E n \in {Len(p) - 4, Len(p) - 5, Len(p) - 6} : n > 0 /\ p = Payload(2, n)
       THEN 1000 + (CHOOSE n \in {Len(p) - 4, Len(p) - 5, Len(p) - 6} : n > 0 /\ p = Payload(2, n))
  ELSE -9
LogLen(p) == IF Len(p) > 3 /\ \E n \in {Len(p) - 4, Len(p) - 5, Len(p) - 6} : n > 0 /\ p = LogPay(n)
             THEN CHOOSE n \in {Len(p) - 4, Len(p) - 5, Len(p) - 6} : n > 0 /\ p = LogPay(n) ELSE 0

NoMsg == [c |-> 0]
NoWork == [h |-> NoHdr, acc |-> <<>>]
\* o: options [mto, kal, mtu, maxout, fl] (fl: 1 authentication required, 2 keep-alive, 4 remote log allowed)
NewNode(o, t0, r0) ==
  [o |-> o, st |-> UNINIT, way |-> <<>>, si |-> FALSE, sr |-> FALSE, sc |-> FALSE, est |-> FALSE, hrx |-> FALSE, htx |-> FALSE,
   hook |-> FALSE, inb |-> <<>>, wk |-> NoWork, oq |-> <<>>, t |-> t0, ls |-> Never, lc |-> t0, rnd |-> r0, perr |-> 0, unack |-> 0,
   tag |-> 0, eff |-> 2, cb |-> FALSE, pol |-> 0, svc |-> <<>>, ok |-> TRUE, out |-> <<>>, ev |-> <<>>, log |-> 0]
Begin(n) == [n EXCEPT !.out = <<>>, !.ev = <<>>, !.log = 0, !.ok = TRUE]
Connected(n) == n.est
Idle(n) == n.st = LIVE /\ n.oq = <<>> /\ n.wk = NoWork /\ n.inb = <<>>
Ka(n) == (n.o.fl \div 2) % 2 = 1
NeedAuth(n) == n.o.fl % 2 = 1
LogOk(n) == n.o.fl \div 4 = 1

\* ---- towards the transport
Emit(n, b) == IF n.eff \in {0, 1} THEN [n EXCEPT !.ok = TRUE, !.out = Append(@, b), !.ls = n.t] ELSE [n EXCEPT !.ok = FALSE]
SendSync(n, need) == Emit(n, SyncFrame(IF need THEN 1 ELSE 2))
Draw(n) == [n EXCEPT !.rnd = @ + 1]
RandId(n) == (n.rnd + 1) % 16777216
SendConnect(n) == LET m == Draw(n) IN IF RandId(n) = 0 THEN [m EXCEPT !.ok = FALSE] ELSE LET e == Emit(m, Frame(2, 1, RandId(n), <<>>)) IN IF e.ok THEN [e EXCEPT !.lc = n.t] ELSE e

Msg(c, rb, id, pl) == [c |-> c, rb |-> rb, id |-> id, pl |-> pl, pri |-> 0, sent |-> FALSE, mark |-> 0, rt |-> 3]
MsgValid(m) == m.c \in Codes /\ (m.c = 1 \/ ((m.rb # 0) = (m.id > 0)))
\* a message joins the queue behind those of its own or higher priority
Enq(q, m, p) == LET k == Cardinality({i \in 1..Len(q) : q[i].pri >= p}) IN InsertAtIdx(q, k + 1, [m EXCEPT !.pri = p])
SendPri(c) == IF c = 15 THEN PApp ELSE IF c = 5 THEN 0 ELSE PInt
SendMsg(n, m) == IF Len(n.oq) >= n.o.maxout \/ ~MsgValid(m) THEN [n EXCEPT !.ok = FALSE]
                 ELSE [n EXCEPT !.ok = TRUE, !.oq = Enq(@, m, SendPri(m.c))]
\* a fresh message of this end's own: one which wants a reply draws an ID
Fresh(n, c, need, pl) == IF need THEN <<Draw(n), Msg(c, 1, RandId(n), pl)>> ELSE <<n, Msg(c, 0, 0, pl)>>

\* the application's send(): <<node, result>>
Send(n, pl, need) ==
  IF n.st \in {UNINIT, HANGING, HUNGUP} THEN <<n, -4>>
  ELSE IF Len(n.oq) >= n.o.maxout THEN <<n, -3>>
  ELSE LET f == Fresh(n, 15, need, pl) m == SendMsg(f[1], f[2])
       IN IF ~MsgValid(f[2]) THEN <<f[1], IF pl = <<>> THEN -3 ELSE -2>> ELSE <<m, f[2].id>>

\* ---- route planning
Prepend(w, s) == IF Len(w) < WayMax THEN <<s>> \o w ELSE w
AppendRoute(w, r) == w \o Take(r, WayMax - Len(w))
InsertSync(n) == [n EXCEPT !.way = IF Len(@) < WayMax THEN Prepend(Prepend(@, TENTATIVE), RESYNC) ELSE @]

\* ---- what arrives
Reply(m, rb, pl) == [m EXCEPT !.rb = 2 + rb, !.pl = pl]
\* an answer releases the messages which were waiting for it
Clear(n, id) == IF id = 0 THEN n
                ELSE [n EXCEPT !.oq = SelectSeq(@, LAMBDA m : ~(m.sent /\ m.rb % 2 = 1 /\ m.id = id))]
\* the application's handler (policy pol): 1 acknowledges what asks for it, 2 everything, 3 answers {"k":7}, 4 answers {"k":7} and
\* wants an answer, 5 sends {"k":9} of its own, 6 the same wanting an answer
Handler(n, m, pol) ==
  LET q == CASE pol = 1 /\ m.rb % 2 = 1 -> <<n, Reply(m, 0, <<>>), TRUE>>
             [] pol = 2 -> <<n, Reply(m, 0, <<>>), TRUE>>
             [] pol = 3 -> <<n, Reply(m, 0, Payload(1, 7)), TRUE>>
             [] pol = 4 -> <<n, Reply(m, 1, Payload(1, 7)), TRUE>>
             [] pol = 5 -> <<Send(n, Payload(1, 9), FALSE)[1], m, FALSE>>
             [] pol = 6 -> <<Send(n, Payload(1, 9), TRUE)[1], m, FALSE>>
             [] OTHER -> <<n, m, FALSE>>
  IN IF q[3] THEN SendMsg(q[1], q[2]) ELSE q[1]
Note(n, who, m) == [n EXCEPT !.ev = @ \o <<who, m.rb, m.id, ReadPay(m.pl)>>]
Ack(n, m) == SendMsg(n, Reply(m, 0, <<>>))
Handle(n, m) ==
  LET rep == m.rb \div 2 = 1 exp == m.rb % 2 = 1 IN
  CASE m.c = 1 -> IF rep THEN [n EXCEPT !.sr = TRUE, !.si = TRUE, !.sc = FALSE] ELSE SendSync([n EXCEPT !.si = TRUE], FALSE)
    [] m.c = 2 -> IF rep THEN
                    [n EXCEPT !.est = TRUE,
                       !.way = IF n.st = TENTATIVE /\ @ = <<>> THEN (IF NeedAuth(n) THEN <<AUTH, LIVE>> ELSE <<LIVE>>) ELSE @]
                  ELSE IF exp THEN Emit(n, Frame(2, 2, m.id, <<>>)) ELSE n
    [] m.c = 5 -> LET k == [n EXCEPT !.hrx = TRUE] IN
                  IF ~rep /\ exp THEN (LET a == Ack(k, m) IN IF a.ok THEN [a EXCEPT !.way = AppendRoute(@, <<HANGING, HUNGUP>>)] ELSE k) ELSE k
    [] m.c = 8 -> IF rep THEN n
                  ELSE LET k == IF LogOk(n) THEN [n EXCEPT !.log = @ + LogLen(m.pl)] ELSE n IN IF exp THEN Ack(k, m) ELSE k
    [] m.c = 9 -> IF exp THEN Ack(n, m) ELSE n
    [] m.c = 15 -> IF n.cb THEN Handler(Note(n, 1, m), m, n.pol) ELSE n
    [] m.c >= 16 -> IF m.c - 15 <= Len(n.svc) THEN Handler(Note(n, m.c - 14, m), m, n.svc[m.c - 15]) ELSE n
    [] OTHER -> n
\* an inbound message is dealt with, and if it was an answer, releases what it answers
Churn(n, m) == LET k == Handle(n, m) IN IF m.rb \div 2 = 1 THEN Clear(k, m.id) ELSE k

RECURSIVE FindSync(_, _)
FindSync(b, i) == IF i > Len(b) - 3 THEN 0 ELSE IF IsSyncAt(b, i) THEN i ELSE FindSync(b, i + 1)
\* from a sync at i: <<where the last sync or the first non-sync starts, reply bits seen>>
RECURSIVE RunSync(_, _, _, _)
RunSync(b, i, s, e) ==
  IF ~IsSyncAt(b, i) THEN <<i, s, e>>
  ELSE LET s1 == s \/ Rep(b[i + 1]) e1 == e \/ Exp(b[i + 1])
       IN IF i + 7 <= Len(b) THEN RunSync(b, i + 4, s1, e1) ELSE <<i, s1, e1>>
\* the search for synchronisation: <<node, found>>
Hunt(n) ==
  LET b == n.inb i == FindSync(b, 1) IN
  IF i = 0 THEN <<[n EXCEPT !.inb = IF Len(@) < 4 THEN @ ELSE Drop(@, Len(@) - 3)], FALSE>>
  ELSE LET r == RunSync(b, i, FALSE, FALSE)
           k == [n EXCEPT !.inb = Drop(@, r[1] - 1), !.sr = @ \/ r[2], !.si = @ \/ r[2] \/ r[3]]
           m == IF r[3] THEN SendSync(k, FALSE) ELSE k
       IN <<IF m.sc THEN SendSync(m, TRUE) ELSE m, TRUE>>
\* takes at most one message out of the collected bytes and deals with it
ParseOne(n) ==
  LET q == Parse(n.inb)
      k == IF n.wk # NoWork THEN n
           ELSE IF q[1] = -3 THEN InsertSync(n)
           ELSE IF q[1] = -2 THEN n
           ELSE LET c == [n EXCEPT !.inb = Drop(@, HLen(q[2].f))]
                IN IF q[2].len <= n.o.mtu THEN [c EXCEPT !.wk = [h |-> q[2], acc |-> <<>>]] ELSE c
      want == PayLen(k.wk.h) - Len(k.wk.acc)
      acc == k.wk.acc \o Take(k.inb, want)
      a == [k EXCEPT !.inb = Drop(@, want)]
  IN IF k.wk = NoWork THEN k
     ELSE IF Len(acc) < PayLen(k.wk.h) THEN [a EXCEPT !.wk.acc = acc]
     ELSE LET h == k.wk.h d == [a EXCEPT !.wk = NoWork] IN
          IF HdrValid(h) THEN Churn([d EXCEPT !.perr = 0], Msg(h.c, h.f % 4, h.id, acc))
          ELSE LET e == [d EXCEPT !.perr = @ + 1] IN IF e.perr >= 3 THEN InsertSync(e) ELSE e
Process(n) == CASE n.st = RESYNC -> (LET h == Hunt(n) IN IF h[2] THEN ParseOne(h[1]) ELSE h[1])
                [] n.st \in {TENTATIVE, AUTH, LIVE, HANGING} -> ParseOne(n)
                [] OTHER -> n

\* ---- what leaves
MsgBytes(m) == Frame(m.c, m.rb, m.id, m.pl)
Since(n, x) == IF x = Never THEN (IF n.t >= 0 THEN n.t ELSE 1000000000) ELSE n.t - x
Outbound(n) ==
  IF n.oq = <<>> THEN n
  ELSE LET m == Head(n.oq) k == [n EXCEPT !.oq = Tail(@)]
           late == m.sent /\ n.o.mto < Since(n, m.mark)
           try == ~m.sent \/ (late /\ m.rt > 0)
           m1 == IF late /\ m.rt > 0 THEN [m EXCEPT !.rt = @ - 1] ELSE m
           calm == IF m.pri = PAck THEN PAck ELSE IF m.c = 15 THEN PApp ELSE PInt
           e == Emit(k, MsgBytes(m1))
       IN IF late /\ m.rt = 0 THEN [k EXCEPT !.unack = @ + 1]
          ELSE IF ~try THEN [k EXCEPT !.oq = Enq(@, m1, calm)]
          ELSE IF ~e.ok THEN [e EXCEPT !.oq = Enq(@, m1, calm)]
          ELSE LET g == IF m.c = 5 THEN [e EXCEPT !.htx = TRUE] ELSE e
               IN IF m.rb % 2 = 1 THEN [g EXCEPT !.oq = Enq(@, [m1 EXCEPT !.sent = TRUE, !.mark = n.t], PAck)] ELSE g

\* ---- the state machine
Reset(n) == [n EXCEPT !.inb = <<>>, !.oq = <<>>, !.wk = NoWork, !.si = FALSE, !.sr = FALSE, !.sc = FALSE, !.est = FALSE, !.hrx = FALSE,
                      !.htx = FALSE, !.hook = FALSE, !.ls = Never, !.perr = 0, !.unack = 0, !.tag = 0]
\* entering a state: ok tells whether it was entered
Enter(n, s) ==
  CASE s = SETUP -> LET r == Draw(Reset(n)) IN [r EXCEPT !.tag = 1, !.ok = TRUE]
    [] s = RESYNC -> LET r == SendSync([n EXCEPT !.inb = <<>>, !.wk = NoWork, !.si = FALSE, !.sr = FALSE], TRUE)
                     IN [r EXCEPT !.sc = r.ok]
    [] s = TENTATIVE -> SendConnect([n EXCEPT !.sc = FALSE])
    [] s = AUTH -> [n EXCEPT !.ok = TRUE, !.ev = @ \o <<100>>]
    [] s = LIVE -> LET f == Fresh([n EXCEPT !.si = FALSE, !.sr = FALSE], 9, TRUE, <<>>) m == SendMsg(f[1], f[2])
                   IN [m EXCEPT !.ok = TRUE, !.ev = @ \o <<100>>]
    [] s = HANGING -> (LET f == Fresh(n, 5, TRUE, <<>>) IN SendMsg(f[1], f[2]))
    [] s = HUNGUP -> [n EXCEPT !.ok = TRUE, !.hook = TRUE, !.est = FALSE, !.ev = @ \o <<100>>]
    [] OTHER -> [n EXCEPT !.ok = FALSE]
\* <<node, moved>>
Advance(n) == IF n.way = <<>> THEN <<n, FALSE>>
              ELSE LET e == Enter(n, Head(n.way)) IN
                   IF e.ok THEN <<[e EXCEPT !.st = Head(n.way), !.way = Tail(@)], TRUE>> ELSE <<e, FALSE>>
Restart == <<SETUP, RESYNC, TENTATIVE>>
FsmPoll(n) ==
  LET go == CASE n.st = UNINIT -> n.eff # 2 /\ n.cb
              [] n.st = SETUP -> TRUE
              [] n.st = RESYNC -> (n.si /\ n.sr)
              [] n.st = TENTATIVE -> n.est \/ (n.way # <<>> /\ n.way[1] = RESYNC)
              [] n.st = AUTH -> FALSE
              [] n.st = LIVE -> n.way # <<>>
              [] n.st = HANGING -> n.oq = <<>> /\ n.hrx /\ n.htx
              [] n.st = HUNGUP -> ~n.hook
              [] OTHER -> FALSE
      k == IF go /\ n.st \in {UNINIT, HUNGUP} THEN [n EXCEPT !.way = Restart] ELSE n
  IN IF go THEN Advance(k) ELSE <<n, FALSE>>

\* ---- the public calls: each yields <<node, result>>
\* what went unanswered is said again: a CONNECT, or the sync
KeepAlive(n) == IF n.st = TENTATIVE /\ ~(n.way # <<>> /\ n.way[1] = RESYNC) THEN (IF n.t - n.lc > n.o.kal THEN SendConnect(n) ELSE n)
                ELSE IF (n.sc \/ Ka(n)) /\ Since(n, n.ls) > n.o.kal THEN SendSync(n, TRUE) ELSE n
Poll(n0) == LET n == Begin(n0)
                k == IF n.st \in {SETUP, HUNGUP} THEN n ELSE KeepAlive(Outbound(Process(n)))
                f == FsmPoll(k)
            IN <<f[1], Bit(f[2])>>
Push(n0, b) == LET n == Begin(n0) IN
               <<IF n.st \in {RESYNC, TENTATIVE, AUTH, LIVE, HANGING} THEN [n EXCEPT !.inb = @ \o b] ELSE n, 1>>
Hangup(n0, graceful) ==
  LET n == Begin(n0) IN
  IF ~graceful /\ n.st \in 2..6 THEN <<[Enter([n EXCEPT !.oq = <<>>], HUNGUP) EXCEPT !.way = <<>>, !.st = HUNGUP], 0>>
  ELSE IF ~graceful /\ n.st = HUNGUP THEN <<[n EXCEPT !.oq = <<>>], 0>>
  ELSE IF ~graceful THEN <<n, -1>>
  ELSE IF n.st \in 2..5 THEN <<[n EXCEPT !.way = AppendRoute(@, <<HANGING, HUNGUP>>)], IF Len(n.way) < WayMax THEN 0 ELSE -1>>
  ELSE IF n.st \in {HANGING, HUNGUP} THEN <<n, -2>> ELSE <<n, -1>>
OffHook(n0) == LET n == Begin(n0) IN IF n.st = HUNGUP THEN <<[n EXCEPT !.hook = FALSE], 0>> ELSE <<n, -1>>
Offer(n0, kind, v, need) == LET s == Send(Begin(n0), Payload(kind, v), need) IN s
\* writing to the counterpart's log
WriteLog(n0, len, need) ==
  LET n == Begin(n0) IN
  IF len = 0 \/ ~n.est THEN <<n, -1>>
  ELSE LET f == Fresh(n, 8, need, LogPay(len)) m == SendMsg(f[1], f[2])
       IN IF ~MsgValid(f[2]) THEN <<f[1], -4>> ELSE IF m.ok THEN <<m, 0>> ELSE <<m, -5>>
=============================================================================
