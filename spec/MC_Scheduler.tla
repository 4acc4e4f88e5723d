---- MODULE MC_Scheduler ----
EXTENDS Scheduler, Json
CONSTANTS M, Periods, Recs, MaxT, Scripts, Bases
S0 == {<<0, 0, 0, -1, -2>>, <<0, 1, 0, -1, -2>>, <<1, 1, 0, -1, -2>>, <<0, 0, 1, 0, -2>>, <<0, 0, 0, -1, 2>>}
S1 == {<<1, 1, 0, -1, -2>>, <<0, 1, 0, 0, -2>>}
R0 == {-1, 0, 1, 2}
R1 == {-1, 1, 2}
I == 0..(M - 1)
MCNext == IF t < 0 THEN \E b \in Bases : Do("new", <<b>>, <<>>)
          ELSE IF \E i \in I : ~s[i].ex
          THEN LET i == CHOOSE j \in I : ~s[j].ex /\ \A k \in 0..(j - 1) : s[k].ex IN
               \E p \in Periods, r \in Recs, e \in 0..1 : Do("make", <<i, p, r, e>>, <<>>)
          ELSE \/ \E i \in I : \/ Do("add", <<i>>, <<>>) \/ Do("delay", <<i>>, <<>>)
                               \/ (\E b \in 0..1 : Do("enable", <<i, b>>, <<>>))
                               \/ (\E c \in Scripts : s[i].scr = NoScr /\ t < MaxT /\ Do("script", <<i>> \o c, <<>>))
                               \/ (s[i].nx < MaxT /\ Do("delayby", <<i, 1>>, <<>>))
               \/ Do("tick", <<>>, <<>>) \/ Do("service", <<>>, <<>>) \/ (t < MaxT /\ Do("wait", <<1>>, <<>>))
MCSpec == Init /\ [][MCNext]_vars
Forget(x) == [x EXCEPT !.runs = 0, !.lx = 0]
View == <<t, act, q, ticked, [i \in I |-> Forget(s[i])]>>
Bound == t <= MaxT + 3
NoDup(x) == \A i, j \in 1..Len(x) : i # j => x[i] # x[j]
Once == NoDup(q) /\ NoDup(act) /\ Len(act) <= Max /\ \A i \in 1..Len(q) : HasElem(act, q[i])
Log(r) == [k \in 1..(Len(r) \div 2) |-> r[2 * k - 1]]
\* one service call runs all that were queued, in that order first, and no schedule more often than its period allows
Prop_Service == [][(last'.op = "service" /\ ticked) =>
    /\ IsPre(q, Log(last'.r)) /\ q' = <<>>
    /\ \A k, m \in 1..Len(Log(last'.r)) : (k < m /\ Log(last'.r)[k] = Log(last'.r)[m]) =>
          last'.r[2 * m] >= last'.r[2 * k] + s[Log(last'.r)[k]].per]_vars
Prop_Gate == [][(last'.op = "service" /\ ~ticked) => s' = s]_vars
\* never early: whatever joins the queue is due
Prop_Due == [][(last'.op = "tick") => \A i \in 1..Len(q') : HasElem(q, q'[i]) \/ (s[q'[i]].en /\ s[q'[i]].nx <= t)]_vars
Prop_Complete == [][(last'.op = "tick") => \A i \in 1..Len(act) : Due(s[act[i]], t) => HasElem(q', act[i])]_vars
\* a finite recurrence count is used up one execution at a time and then disables
Prop_Recur == [][(last'.op = "service") => \A i \in I : (s'[i].runs = s[i].runs + 1 /\ s[i].scr = NoScr /\ s[i].en /\ s[i].rec >= 0) =>
    (IF s[i].rec <= 1 THEN ~s'[i].en /\ s'[i].rec = 0 ELSE s'[i].en /\ s'[i].rec = s[i].rec - 1)]_vars
Dump == PrintT(<<"@E", ToJson(<<View, [i \in I |-> <<s[i].runs, s[i].lx>>]>>), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<View', [i \in I |-> <<s'[i].runs, s'[i].lx>>]>>)>>)
====
