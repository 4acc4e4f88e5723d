---- MODULE MC_M2MLink ----
EXTENDS M2MLink, Json
CONSTANTS SendFrom, Fl, R0, Pols, Waits, MaxQ, MaxIn, MaxRnd, Early, Menu, Effs, Hang
\* what the counterpart may put on the wire; ids are those which this end draws (R0 + 2 the first connect) or its own (9)
Words(x) == [sync |-> SyncFrame(1), syncr |-> SyncFrame(2), conn |-> Frame(2, 1, 9, <<>>), connr |-> Frame(2, 2, R0 + 2, <<>>),
             app |-> Frame(15, 0, 0, Payload(1, 5)), appq |-> Frame(15, 1, 9, Payload(1, 6)),
             rep1 |-> Frame(15, 2, R0 + 3, <<>>), rep2 |-> Frame(15, 2, R0 + 4, <<>>), repq |-> Frame(15, 3, R0 + 4, <<>>),
             whor |-> Frame(9, 2, R0 + 3, <<>>), hang |-> Frame(5, 1, 9, <<>>), hangr |-> Frame(5, 2, R0 + 4, <<>>),
             junk |-> <<7>>, head |-> SubSeq(Frame(15, 0, 0, Payload(1, 5)), 1, 6), tail |-> SubSeq(Frame(15, 0, 0, Payload(1, 5)), 7, 8),
             bad |-> <<15, 16, 3, 35>>, s1 |-> <<1, 18>>, s2 |-> <<4, 24>>][x]
MCNext == IF n.st = -1 THEN \E f \in Fl : Do("new", <<10, 30, 64, f, 5000, R0, 0, 0>>, <<>>)
          ELSE IF ~n.cb THEN Do("cb", <<>>, <<>>)
          ELSE IF n.eff = 2 THEN Do("eff", <<1>>, <<>>)
          ELSE \/ Do("poll", <<>>, <<>>)
               \/ \E w \in (IF n.st < LIVE THEN Early ELSE Menu) : Len(n.inb) + Len(Words(w)) <= MaxIn /\ Do("push", <<>>, <<Words(w)>>)
               \/ \E d \in Waits : Do("wait", <<d>>, <<>>)
               \/ Len(n.oq) < MaxQ /\ n.st >= SendFrom /\ \E b \in 0..1 : Do("send", <<1, 3, b>>, <<>>)
               \/ \E p \in Pols : n.pol # p /\ Do("pol", <<0, p>>, <<>>)
               \/ \E e \in Effs : n.eff # e - 1 /\ Do("eff", <<e - 1>>, <<>>)
               \/ \E h \in Hang : (IF h < 2 THEN Do("hangup", <<h>>, <<>>) ELSE n.st = HUNGUP /\ Do("reset", <<>>, <<>>))
MCSpec == Init /\ [][MCNext]_vars
Bound == n.st = -1 \/ (n.rnd - R0 <= MaxRnd /\ Len(n.way) <= 4)
\* ages saturate: only whether a limit has passed matters
Age(x, lim) == LET s == Since(n, x) IN IF s > lim THEN lim + 1 ELSE s
View == IF n.st = -1 THEN <<>> ELSE
        <<n.o.fl, n.st, n.way, n.si, n.sr, n.sc, n.est, n.hrx, n.htx, n.hook, n.inb, n.wk, [i \in 1..Len(n.oq) |-> [n.oq[i] EXCEPT !.mark = IF n.oq[i].sent THEN Age(@, 10) ELSE 0]],
          Age(n.ls, 30), IF n.st = TENTATIVE THEN Age(n.lc, 30) ELSE 0, n.rnd, n.perr, n.eff, n.cb, n.pol>>
Fr(c) == {i \in 1..Len(n.out) : n.out[i][1] = c}
\* The application hears of LIVE only after synchronisation and an exchange of CONNECT
Prop_Live == [][(n.st # -1 /\ n'.st = LIVE /\ n.st # LIVE) => (n'.est /\ n.st = (IF NeedAuth(n) THEN AUTH ELSE TENTATIVE))]_vars
Prop_Path == [][(n.st # -1 /\ n'.st # n.st) =>
   <<n.st, n'.st>> \in {<<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 4>>, <<3, 5>>, <<4, 5>>, <<5, 6>>, <<6, 7>>, <<7, 1>>,     \* the way there
                        <<3, 2>>, <<5, 2>>, <<6, 2>>, <<3, 6>>, <<3, 3>>,                                   \* lost synchronisation, early hangup
                        <<2, 7>>, <<3, 7>>, <<4, 7>>, <<5, 7>>} ]_vars
Prop_Sync == [][(n.st = RESYNC /\ n'.st = TENTATIVE) => (n'.si /\ n'.sr)]_vars
\* nothing is taken once hangup has begun, and a session which ended keeps nothing
Prop_Refuse == [][(last'.op = "send" /\ n.st \in {UNINIT, HANGING, HUNGUP}) => (last'.r[1] = -4 /\ n'.oq = n.oq)]_vars
Prop_Fresh == [][(n.st \notin {-1, SETUP} /\ n'.st = SETUP) => (n'.oq = <<>> /\ n'.inb = <<>> /\ n'.wk = NoWork /\ ~n'.est)]_vars
\* a hangup by force needs nothing from the counterpart
Prop_Force == [][(last'.op = "hangup" /\ last'.a = <<0>> /\ n.st \in 2..7) => (n'.st = HUNGUP /\ n'.oq = <<>> /\ last'.r[1] = 0)]_vars
\* a message which wants an answer stays until it is answered, given up after four sends, or the session ends
Has(q, id) == \E i \in 1..Len(q) : q[i].id = id /\ q[i].rb = 1
Answered(b, id) == \E i \in 1..Len(b) : TRUE
Prop_Held == [][\A i \in 1..(IF n.st = -1 THEN 0 ELSE Len(n.oq)) :
     (n.oq[i].rb = 1 /\ ~Has(n'.oq, n.oq[i].id)) =>
        (\/ n'.st = SETUP \/ last'.op = "hangup" \/ n'.unack = n.unack + 1
         \/ (last'.op = "poll" /\ n.oq[i].sent /\ (Len(n'.inb) < Len(n.inb) \/ n.wk # NoWork)))]_vars
\* one which wants none leaves the queue only by going out
Prop_Sent == [][\A i \in 1..(IF n.st = -1 THEN 0 ELSE Len(n.oq)) :
     (n.oq[i].rb = 0 /\ Len(SelectSeq(n'.oq, LAMBDA m : m = n.oq[i])) < Len(SelectSeq(n.oq, LAMBDA m : m = n.oq[i]))) =>
        (n'.st = SETUP \/ last'.op = "hangup" \/ (n.eff \in {0, 1} /\ \E j \in 1..Len(n'.out) : n'.out[j] = MsgBytes(n.oq[i])))]_vars
Inv_Sorted == n.st = -1 \/ \A i \in 1..(Len(n.oq) - 1) : n.oq[i].pri >= n.oq[i + 1].pri
\* at most one queued message leaves per poll, bytes are consumed in order
Prop_Bytes == [][(last'.op = "poll" /\ n.st \in {TENTATIVE, LIVE, HANGING} /\ n'.st # RESYNC) =>
                 \E k \in 0..Len(n.inb) : n'.inb = Drop(n.inb, k)]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
