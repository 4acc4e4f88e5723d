----------------------------- MODULE Scheduler -----------------------------
(* C3PScheduler and its schedules.  Time is the spec's own clock t in microseconds (the hardware clock is t plus an
   arbitrary offset, and wraps).  A schedule's callback may consume time, be interrupted by the tick source, and change
   its own schedule; what it does is fixed beforehand by Script. *)
EXTENDS Util, TLC
VARIABLES t, act, q, ticked,
          s,      \* s[id]: [ex, en, rec, per, nx (next execution, -1 unset), lx (last, -1 none), runs, scr]
          last
vars == <<t, act, q, ticked, s, last>>
Max == 8
Ids == 0..9
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
NoScr == <<0, 0, 0, -1, -2>>      \* time before the tick, tick?, time after it, enabled := , recurrence :=
Blank == [ex |-> FALSE, en |-> FALSE, rec |-> 0, per |-> 0, nx |-> -1, lx |-> -1, runs |-> 0, scr |-> NoScr]
Again(x) == x.en /\ (x.rec > 0 \/ x.rec = -1)
View1(x) == <<Bit(x.en), x.rec, Bit(Again(x)), x.lx, x.nx, x.runs, x.per>>
Obs == <<act>> \o [i \in 1..10 |-> IF s[i - 1].ex THEN View1(s[i - 1]) ELSE <<>>]

New(base) == t' = 0 /\ act' = <<>> /\ q' = <<>> /\ ticked' = FALSE /\ s' = [i \in Ids |-> Blank] /\ Res("new", <<base>>, <<0>>)
Make(i, per, rec, en) ==
  /\ s' = [s EXCEPT ![i] = [Blank EXCEPT !.ex = TRUE, !.en = (en = 1), !.rec = rec, !.per = per]]
  /\ UNCHANGED <<t, act, q, ticked>> /\ Res("make", <<i, per, rec, en>>, <<0>>)
Add(i) ==
  /\ UNCHANGED <<t, q, ticked>>
  /\ IF HasElem(act, i) THEN UNCHANGED <<act, s>> /\ Res("add", <<i>>, <<-2>>)
     ELSE IF Len(act) = Max THEN UNCHANGED <<act, s>> /\ Res("add", <<i>>, <<-1>>)
     ELSE /\ act' = Append(act, i)
          /\ s' = IF s[i].en THEN [s EXCEPT ![i].nx = t + s[i].per] ELSE s
          /\ Res("add", <<i>>, <<0>>)
Due(x, now) == x.en /\ x.nx # -1 /\ now >= x.nx
\* One tick: everything enabled and due joins the execution queue, once; not what is executing at this very moment.
Enq(ss, queue, now, exec) == queue \o SelectSeq(act, LAMBDA i : i # exec /\ Due(ss[i], now) /\ ~HasElem(queue, i))
Tick == /\ q' = Enq(s, q, t, -1) /\ ticked' = TRUE /\ UNCHANGED <<t, act, s>> /\ Res("tick", <<>>, <<0>>)
\* Executing schedule i at time st.t.
Exec(st, i) ==
  LET x   == st.s[i]
      c   == x.scr
      now == st.t
      q1  == IF c[2] = 1 THEN Enq(st.s, st.q, now + c[1], i) ELSE st.q
      en1 == IF c[4] = -1 THEN x.en ELSE c[4] = 1
      rc1 == IF c[5] = -2 THEN x.rec ELSE c[5]
      rc2 == IF en1 /\ rc1 > 0 THEN rc1 - 1 ELSE rc1
      en2 == en1 /\ rc2 # 0
      y   == [x EXCEPT !.en = en2, !.rec = rc2, !.lx = IF en1 THEN now ELSE x.lx, !.runs = x.runs + 1, !.scr = NoScr]
      z   == [y EXCEPT !.nx = IF Again(y) THEN x.per + now ELSE -1]
  IN [t |-> now + c[1] + c[3], q |-> q1, s |-> [st.s EXCEPT ![i] = z], log |-> st.log \o <<i, now>>]
RECURSIVE Drain(_)
Drain(st) == IF st.q = <<>> THEN st ELSE Drain(Exec([st EXCEPT !.q = Tail(st.q)], st.q[1]))
Service ==
  /\ UNCHANGED <<act, ticked>>
  /\ IF ~ticked THEN UNCHANGED <<t, q, s>> /\ Res("service", <<>>, <<>>)
     ELSE LET f == Drain([t |-> t, q |-> q, s |-> s, log |-> <<>>]) IN
          t' = f.t /\ q' = <<>> /\ s' = f.s /\ Res("service", <<>>, f.log)
Wait(n) == t' = t + n /\ UNCHANGED <<act, q, ticked, s>> /\ Res("wait", <<n>>, <<0>>)
Upd(i, x, op, a) == s' = [s EXCEPT ![i] = x] /\ UNCHANGED <<t, act, q, ticked>> /\ Res(op, a, <<0>>)
\* Enabling is only meaningful for a schedule that knows its next time (the driver declines otherwise).
Enable(i, b) == IF b = 1 /\ s[i].nx = -1 THEN UNCHANGED <<t, act, q, ticked, s>> /\ Res("enable", <<i, b>>, <<-9>>)
                ELSE Upd(i, [s[i] EXCEPT !.en = (b = 1)], "enable", <<i, b>>)
Delay(i) == Upd(i, [s[i] EXCEPT !.nx = t + s[i].per, !.en = TRUE], "delay", <<i>>)
DelayBy(i, n) == IF s[i].en /\ s[i].nx = -1 THEN UNCHANGED <<t, act, q, ticked, s>> /\ Res("delayby", <<i, n>>, <<-9>>)
                 ELSE Upd(i, [s[i] EXCEPT !.nx = (IF s[i].en THEN s[i].nx ELSE t) + n, !.en = TRUE], "delayby", <<i, n>>)
SetRec(i, n) == Upd(i, [s[i] EXCEPT !.rec = n], "setrec", <<i, n>>)
SetPer(i, n) == Upd(i, [s[i] EXCEPT !.per = n], "setper", <<i, n>>)
Script(i, c) == Upd(i, [s[i] EXCEPT !.scr = c], "script", <<i>> \o c)
Has(i) == UNCHANGED <<t, act, q, ticked, s>> /\ Res("has", <<i>>, <<Bit(HasElem(act, i))>>)

Do(op, a, d) ==
  CASE op = "new" -> New(a[1]) [] op = "make" -> Make(a[1], a[2], a[3], a[4]) [] op = "add" -> Add(a[1])
    [] op = "tick" -> Tick [] op = "service" -> Service [] op = "wait" -> Wait(a[1])
    [] op = "enable" -> Enable(a[1], a[2]) [] op = "delay" -> Delay(a[1]) [] op = "delayby" -> DelayBy(a[1], a[2])
    [] op = "setrec" -> SetRec(a[1], a[2]) [] op = "setper" -> SetPer(a[1], a[2])
    [] op = "script" -> Script(a[1], SubSeq(a, 2, 6)) [] op = "has" -> Has(a[1])
    [] OTHER -> FALSE
Init == /\ t = -1 /\ act = <<>> /\ q = <<>> /\ ticked = FALSE /\ s = [i \in Ids |-> Blank]
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
