---- MODULE MC_M2MPair ----
EXTENDS M2MPair, Json
CONSTANTS Fl, Chunks, Sends, Faults, Waits, Hangs, MaxFault, MaxSend, MaxRnd, MaxQ, Late
\* faults made, and the application's messages: what each end sent <<id, payload>> and received
VARIABLES f, sent, got
mcv == <<p, last, f, sent, got>>
R0 == 100
Evs(n) == IF Len(n.ev) = 0 THEN <<>> ELSE n.ev
\* the application's messages among an end's events (state changes are 100s, where a message's fields begin with 1; answers left out)
RECURSIVE Apps(_)
Apps(e) == IF e = <<>> THEN <<>> ELSE IF Head(e) = 100 THEN Apps(Tail(e)) ELSE (IF e[2] < 2 THEN <<<<e[2], e[3], e[4]>>>> ELSE <<>>) \o Apps(Drop(e, 4))
Hist == /\ got' = (IF p'.up THEN <<got[1] \o Apps(p'.n[1].ev), got[2] \o Apps(p'.n[2].ev)>> ELSE <<<<>>, <<>>>>)
Step(A, k) == A /\ f' = f + k /\ Hist
MCNext ==
  IF ~p.up THEN \E x \in Fl : Step(Do("new", <<x \div 8, x - 8 * (x \div 8), 10, 30, 64, 5000, R0>>, <<>>), 0) /\ sent' = sent
  ELSE IF \E i \in 1..2 : p.n[i].pol = 0 THEN Step(Do("pol", <<IF p.n[1].pol = 0 THEN 1 ELSE 2, 1>>, <<>>), 0) /\ UNCHANGED sent
  ELSE \/ /\ UNCHANGED sent
          /\ \/ \E i \in 1..2 : Step(Do("poll", <<i>>, <<>>), 0)
             \/ \E i \in 1..2, k \in Chunks : p.w[i] # <<>> /\ Step(Do("arrive", <<i, k>>, <<>>), 0)
             \/ \E i \in 1..2 : f < MaxFault /\ "lose" \in Faults /\ p.w[i] # <<>> /\ (Late => p.n[1].st = LIVE /\ p.n[2].st = LIVE) /\ Step(Do("lose", <<i, 1, 4>>, <<>>), 1)
             \/ \E i \in 1..2 : f < MaxFault /\ "cut" \in Faults /\ p.w[i] # <<>> /\ (Late => p.n[1].st = LIVE /\ p.n[2].st = LIVE) /\ Step(Do("lose", <<i, 1, 1>>, <<>>), 1)
             \/ \E i \in 1..2 : f < MaxFault /\ "spoil" \in Faults /\ p.w[i] # <<>> /\ (Late => p.n[1].st = LIVE /\ p.n[2].st = LIVE) /\ Step(Do("spoil", <<i, 1, 0>>, <<>>), 1)
             \/ \E d \in Waits : Step(Do("wait", <<d>>, <<>>), 0)
             \/ \E h \in Hangs : IF h < 4 THEN (h > 1 \/ f < MaxFault) /\ Step(Do("hangup", <<1 + h - 2 * (h \div 2), h \div 2>>, <<>>), Bit(h < 2)) ELSE p.n[h - 3].st = HUNGUP /\ Step(Do("reset", <<h - 3>>, <<>>), 0)
       \/ \E i \in 1..2, s \in Sends : Len(sent[i]) < MaxSend /\ p.n[i].st = LIVE /\ p.n[3 - i].st = LIVE /\ Len(p.n[i].oq) < MaxQ
             /\ Step(Do("send", <<i, 1, Len(sent[i]) + 1, s>>, <<>>), 0)
             /\ sent' = [sent EXCEPT ![i] = Append(@, <<last'.r[1], Len(@) + 1>>)]
MCInit == Init /\ f = 0 /\ sent = <<<<>>, <<>>>> /\ got = <<<<>>, <<>>>>
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == ~p.up \/ (p.n[1].rnd - R0 <= MaxRnd /\ \A i \in 1..2 : Len(p.n[i].way) <= 4 /\ Len(p.w[i]) <= 24)
Age(n, x, lim) == LET s == Since(n, x) IN IF s > lim THEN lim + 1 ELSE s
NView(n) == <<n.o.fl, n.st, n.way, n.si, n.sr, n.sc, n.est, n.hrx, n.htx, n.hook, n.inb, n.wk, [i \in 1..Len(n.oq) |-> [n.oq[i] EXCEPT !.mark = IF n.oq[i].sent THEN Age(n, @, 10) ELSE 0]],
              Age(n, n.ls, 30), IF n.st = TENTATIVE THEN Age(n, n.lc, 30) ELSE 0, n.perr, n.pol>>
View == IF ~p.up THEN <<>> ELSE <<NView(p.n[1]), NView(p.n[2]), p.n[1].rnd, p.w, f, sent, got>>
\* nothing reaches an application which the other did not send, as it sent it
Ours(i) == {sent[i][k] : k \in 1..Len(sent[i])}
Inv_Genuine == \A i \in 1..2 : \A k \in 1..Len(got[i]) : LET g == got[i][k] IN \E s \in Ours(3 - i) : g[3] = s[2] /\ g[2] = s[1]
\* without faults and timeouts, it arrives once, in order
Inv_Order == (f = 0 /\ Waits = {}) => \A i \in 1..2 : Len(got[i]) <= Len(sent[3 - i]) /\ \A k \in 1..Len(got[i]) : got[i][k][3] = k
\* whatever state they got each other into, both come to be connected, if nothing more is lost
Up(x) == x.n[1].st = LIVE /\ x.n[2].st = LIVE /\ x.n[1].est /\ x.n[2].est
Inv_Recovers == p.up => (\E i \in 1..2 : p.n[i].st \in {HANGING, HUNGUP} \/ HasElem(p.n[i].way, HANGING)) \/ Up(Turns(p, 12, 40))
\* with nothing lost, what was sent is all there in the end
RECURSIVE Collect(_, _, _)
Collect(x, k, g) == IF k = 0 THEN g ELSE LET q1 == Acted(x, 1, Poll(x.n[1])[1]) q2 == Acted(q1, 2, Poll(q1.n[2])[1])
                        g1 == <<g[1] \o Apps(q1.n[1].ev), g[2] \o Apps(q2.n[2].ev)>>
                        q3 == Arrive(q2, 1, Len(q2.w[1])) q4 == Arrive(q3, 2, Len(q3.w[2]))
                        q5 == Wait(q4, 1)
                    IN IF q5.up THEN Collect(q5, k - 1, g1) ELSE g
Inv_AllThere == (p.up /\ f = 0 /\ Waits = {} /\ Hangs = {}) => LET g == Collect(p, 16, got) IN
                  \A i \in 1..2 : Len(g[i]) = Len(sent[3 - i]) /\ \A k \in 1..Len(g[i]) : g[i][k][3] = k
\* whoever is asked to hang up does, and so does the other
Asked(x) == \E i \in 1..2 : x.n[i].st \in {HANGING, HUNGUP} \/ HasElem(x.n[i].way, HUNGUP)
Inv_Down == (p.up /\ f = 0 /\ Hangs \subseteq {2, 3} /\ Asked(p)) => LET x == Turns(p, 12, 40) IN x.n[1].st = HUNGUP /\ x.n[2].st = HUNGUP
\* after a forced hangup and a call to go off hook, both are connected once more
Inv_Again == (p.up /\ 4 \in Hangs /\ p.n[1].st = SETUP) => Up(Turns(p, 12, 60))
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
