---------------------------- MODULE Bus ----------------------------
(* Bus adapters (I2C and SPI) and the jobs they carry out for their users.  A job is queued, begun when the bus is its own, finished
   by the hardware (or refused, recalled, purged), and then given back to whoever asked for it, exactly once per transfer; its
   memory afterwards goes where it came from.  The users' callbacks may ask for the job to be repeated, and may queue another. *)
EXTENDS Util, TLC
CONSTANT Slots           \* handles under which the users hold jobs: 1..Slots
VARIABLES cfg,           \* [kind (1 I2C, 2 SPI), pa, maxq, asap, adv, guard, online], kind 0: no adapter
          hw,            \* what the hardware does: <<on begin, on advance>>
          s, last
vars == <<cfg, hw, s, last>>
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
\* s: [ops, q (<<job, priority>> in order), cur, cbq, over, freed, total, failed, ev]
\* job: [own (0 none, 1 the user's, 2 of the pool, 3 in excess of it), st, flt, cb, recs, nxt, veto, buf, cs]
IDLE == 1
QUEUED == 2
WAIT == 7
COMPLETE == 14
FAULT == 15
NoJob == [own |-> 0, st |-> 0, flt |-> 0, cb |-> 0, recs |-> 0, nxt |-> 0, veto |-> 0, buf |-> 0, cs |-> 0]
NoOps == [i \in 1..Slots |-> NoJob]
Fresh == [ops |-> NoOps, q |-> <<>>, cur |-> 0, cbq |-> <<>>, over |-> 0, freed |-> 0, total |-> 0, failed |-> 0, ev |-> <<>>]
SPI == cfg.kind = 2
Ahead(q, p) == Cardinality({ i \in 1..Len(q) : q[i][2] >= p })
Ins(q, x, p) == InsertAtIdx(q, Ahead(q, p) + 1, <<x, p>>)
In(q, x) == \E i \in 1..Len(q) : q[i][1] = x
Ev(S, e) == [S EXCEPT !.ev = @ \o e]
Done(S, j, f) ==         \* finished, with fault f or the one it has
  LET g == IF f = 0 THEN S.ops[j].flt ELSE f IN
  [S EXCEPT !.ops[j].flt = g, !.ops[j].st = (IF SPI /\ g # 0 THEN FAULT ELSE COMPLETE), !.ops[j].cs = 0]
\* the hardware takes on a job: <<state, verdict>>
Begin(S0, j) ==
  LET S == Ev(S0, <<1, j>>) IN
  IF S.ops[j].veto = 1 /\ S.ops[j].cb # 0 THEN <<Done(S, j, 13), 13>>
  ELSE CASE hw[1] = 0 -> <<[S EXCEPT !.ops[j].st = WAIT, !.ops[j].cs = Bit(SPI)], 0>>
         [] hw[1] = 1 -> <<Done(S, j, 0), 0>>
         [] hw[1] = 2 -> <<Done(S, j, 6), 6>>
         [] OTHER -> <<S, 5>>
\* queueing: <<state, result>>
Queue(S, j, p) ==
  IF SPI THEN
    IF S.ops[j].st # IDLE THEN <<S, -4>>
    ELSE IF cfg.guard = 1 /\ Len(S.q) >= cfg.maxq
         THEN LET T == Done(S, j, 14) IN <<[T EXCEPT !.cbq = IF In(@, j) THEN @ ELSE Ins(@, j, p)], -1>>
    ELSE IF In(S.q, j) THEN <<S, -3>> ELSE <<[S EXCEPT !.q = Ins(@, j, p), !.ops[j].st = QUEUED], 0>>
  ELSE IF S.cur = 0 /\ cfg.asap = 1 /\ cfg.online = 1 THEN <<Begin([S EXCEPT !.cur = j, !.ops[j].st = QUEUED], j)[1], 0>>
  ELSE IF In(S.q, j) THEN <<S, -1>> ELSE <<[S EXCEPT !.q = Ins(@, j, 0), !.ops[j].st = QUEUED], 0>>
Reclaim(S, j) ==
  LET T == [S EXCEPT !.total = @ + 1, !.failed = @ + Bit(S.ops[j].flt # 0)] IN
  IF S.ops[j].own = 1 THEN [T EXCEPT !.ops[j].st = IDLE, !.ops[j].flt = 0, !.ops[j].buf = (IF @ \in {1, 3} THEN 0 ELSE @)]
  ELSE [T EXCEPT !.ops[j] = NoJob, !.freed = @ + Bit(S.ops[j].own = 3)]
\* the user is told, and answers whether to do it again: <<state, again>>
Tell(S0, j, purging) ==
  IF S0.ops[j].cb = 0 /\ ~SPI THEN <<S0, FALSE>> ELSE      \* (SPI jobs that name nobody are the adapter's own)
  LET S == Ev(S0, <<2, j, S0.ops[j].flt>>) IN
  IF S.ops[j].cb = 0 THEN <<S, FALSE>>
  ELSE IF S.ops[j].recs > 0 /\ ~purging THEN <<[S EXCEPT !.ops[j].recs = @ - 1], TRUE>>
  ELSE LET k == S.ops[j].nxt IN
       IF k # 0 /\ S.ops[k].own # 0 /\ S.ops[k].st = IDLE
       THEN LET x == Queue(S, k, 0) IN <<Ev(x[1], <<3, k, x[2]>>), FALSE>> ELSE <<S, FALSE>>
Advance(S) == CASE hw[2] = 1 -> Done(S, S.cur, 0) [] hw[2] = 2 -> Done(S, S.cur, 7) [] OTHER -> S
Again(S, j) == Queue([S EXCEPT !.ops[j].flt = 0, !.ops[j].st = IDLE], j, 0)[1]
\* ---- a turn of the I2C adapter: <<state, things done>>
RECURSIVE PollI2C(_, _)
PollI2C(S, n) ==
  LET x == IF S.cur = 0 THEN <<S, n>>
           ELSE CASE S.ops[S.cur].st \in {IDLE, QUEUED} -> <<Begin(S, S.cur)[1], n + 1>>
                  [] S.ops[S.cur].st = WAIT -> <<IF cfg.adv = 1 THEN Advance(S) ELSE S, n>>
                  [] OTHER -> LET t == Tell(S, S.cur, FALSE) IN
                              <<[(IF t[2] THEN Again(t[1], S.cur) ELSE Reclaim(t[1], S.cur)) EXCEPT !.cur = 0], n + 1>> IN
  IF x[1].cur = 0 /\ x[1].q # <<>> THEN PollI2C([x[1] EXCEPT !.cur = x[1].q[1][1], !.q = Tail(@)], x[2]) ELSE x
\* ---- of the SPI adapter: finished jobs await service_callback_queue()
ToCb(S) == [S EXCEPT !.cbq = Ins(@, S.cur, 0), !.cur = 0]
PollSPI(S0) ==
  LET got == S0.cur = 0 /\ S0.q # <<>>
      S == IF got THEN [S0 EXCEPT !.cur = S0.q[1][1], !.q = Tail(@)] ELSE S0 IN
  <<IF S.cur = 0 THEN S
    ELSE CASE S.ops[S.cur].st = WAIT -> IF cfg.adv = 1 THEN Advance(S) ELSE S
           [] S.ops[S.cur].st \in {COMPLETE, FAULT} -> ToCb(S)
           [] OTHER -> LET b == Begin(S, S.cur) IN
                       IF b[2] = 0 THEN b[1] ELSE IF b[2] = 5 THEN [b[1] EXCEPT !.ops[S.cur].st = QUEUED] ELSE ToCb(b[1]),
    Bit(got)>>
Serve(S) ==
  IF S.cbq = <<>> THEN <<S, 0>>
  ELSE LET j == S.cbq[1][1]
           t == Tell([S EXCEPT !.cbq = Tail(@)], j, FALSE) IN
       <<IF t[2] THEN Again(t[1], j) ELSE Reclaim(t[1], j), 1>>
\* ---- purges
Purge1(S, j) == LET T == Done(S, j, 14) IN Reclaim(Tell(T, j, TRUE)[1], j)
RECURSIVE PurgeQ(_)
PurgeQ(S) == IF S.q = <<>> THEN S ELSE PurgeQ(Purge1([S EXCEPT !.q = Tail(@)], S.q[1][1]))
RECURSIVE PurgeD(_, _, _, _)
PurgeD(S, d, i, n) == IF i > Len(S.q) THEN <<S, n>>
                      ELSE IF S.ops[S.q[i][1]].cb = d THEN PurgeD(Purge1([S EXCEPT !.q = RemoveAtIdx(@, i)], S.q[i][1]), d, i, n + 1)
                      ELSE PurgeD(S, d, i + 1, n)

Held(S, k) == Cardinality({ i \in 1..Slots : S.ops[i].own = k })
Idle(S) == S.cur = 0 /\ S.q = <<>>
Obs == IF cfg.kind = 0 THEN <<<<0>>>>
       ELSE <<<<s.cur, Len(s.q), Bit(Idle(s) /\ s.cbq = <<>>), cfg.pa - Held(s, 2), s.over, s.freed, s.total, s.failed, Bit(Idle(s)), Bit(cfg.online = 1)>>,
              [i \in 1..Len(s.q) |-> s.q[i][1]]>>
            \o [i \in 1..Slots |-> IF s.ops[i].own = 0 THEN <<>>
                                   ELSE <<s.ops[i].st, s.ops[i].flt, Bit(s.ops[i].buf \in {1, 2}), s.ops[i].cs>>]
            \o <<<<Cardinality({ i \in 1..Slots : s.ops[i].buf = 1 })>>>>
Go(op, a, S, r) == s' = [S EXCEPT !.ev = <<>>] /\ UNCHANGED <<cfg, hw>> /\ Res(op, a, r \o S.ev)

New(a) == /\ a[1] \in 1..2
          /\ cfg' = [kind |-> a[1], pa |-> a[2], maxq |-> a[3], asap |-> a[4], adv |-> a[5], guard |-> a[6], online |-> Bit(a[7] = 0)]
          /\ hw' = <<0, 0>> /\ s' = Fresh /\ Res("new", a, <<a[7]>>)
Hw(b, v) == hw' = <<b, v>> /\ UNCHANGED <<cfg, s>> /\ Res("hw", <<b, v>>, <<0>>)
\* a job: the user's own, or the adapter's; whose it is, how it answers, what is queued after it, whether it is called off when it
\* is about to begin, and its buffer (0 none, 1 to be freed, 2 not to be freed, 3 to be freed but none)
Job(a) ==
  LET j == a[1]  o == [own |-> 1, st |-> IDLE, flt |-> 0, cb |-> a[3], recs |-> a[4], nxt |-> a[5], veto |-> a[6], buf |-> a[7], cs |-> 0] IN
  /\ a[5] \in {0} \cup ((j + 1)..Slots) /\ a[3] \in 0..2 /\ (a[3] = 0 => a[2] = 1)
  /\ IF s.ops[j].own # 0 THEN Go("job", a, s, <<-99>>)
     ELSE IF a[2] = 1 THEN Go("job", a, [s EXCEPT !.ops[j] = o], <<1>>)
     ELSE IF Held(s, 2) < cfg.pa THEN Go("job", a, [s EXCEPT !.ops[j] = [o EXCEPT !.own = 2]], <<1>>)
     ELSE IF s.over - s.freed < cfg.maxq THEN Go("job", a, [s EXCEPT !.ops[j] = [o EXCEPT !.own = 3], !.over = @ + 1], <<1>>)
     ELSE Go("job", a, s, <<0>>)
\* (a job under way is not to be queued with the I2C adapter again)
MaySubmit(j) == s.ops[j].own # 0 /\ (cfg.kind = 1 => s.ops[j].st = IDLE \/ (In(s.q, j) /\ ~(s.cur = 0 /\ cfg.asap = 1 /\ cfg.online = 1)))
Submit(j, p) == IF ~MaySubmit(j) THEN Go("submit", <<j, p>>, s, <<-99>>) ELSE
                LET x == Queue(s, j, p) IN Go("submit", <<j, p>>, x[1], <<x[2]>>)
\* a user's job that is not in use is let go of
Drop_(j) == IF s.ops[j].own # 1 \/ s.ops[j].st # IDLE THEN Go("drop", <<j>>, s, <<-99>>) ELSE Go("drop", <<j>>, [s EXCEPT !.ops[j] = NoJob], <<0>>)
Poll == LET x == IF SPI THEN PollSPI(s) ELSE IF cfg.online = 1 THEN PollI2C(s, 0) ELSE <<s, 0>> IN
        Go("poll", <<>>, x[1], <<IF x[2] = 0 THEN 0 ELSE IF Idle(x[1]) THEN 1 ELSE 2>>)
ServeCb == IF ~SPI THEN Go("serve", <<>>, s, <<-99>>) ELSE LET x == Serve(s) IN Go("serve", <<>>, x[1], <<x[2]>>)
\* the hardware finishes the job it has
Irq(ok) == IF s.cur # 0 /\ s.ops[s.cur].st = WAIT THEN Go("irq", <<ok>>, Done(s, s.cur, IF ok = 1 THEN 0 ELSE 7), <<1>>)
           ELSE Go("irq", <<ok>>, s, <<0>>)
PurgeCur == Go("purge", <<0>>, IF s.cur = 0 THEN s ELSE [Purge1(s, s.cur) EXCEPT !.cur = 0], <<0>>)
PurgeAll == Go("purge", <<1>>, PurgeQ(s), <<0>>)
PurgeDev(d) == LET x == PurgeD(s, d, 1, 0) IN Go("purgedev", <<d>>, x[1], <<x[2]>>)
Do(op, a, d) == IF cfg.kind = 0 /\ op # "new" THEN FALSE ELSE
  CASE op = "new" -> New(a) [] op = "hw" -> Hw(a[1], a[2]) [] op = "job" -> Job(a) [] op = "submit" -> Submit(a[1], a[2])
    [] op = "drop" -> Drop_(a[1]) [] op = "poll" -> Poll [] op = "serve" -> ServeCb [] op = "irq" -> Irq(a[1])
    [] op = "purge" -> (IF a[1] = 0 THEN PurgeCur ELSE PurgeAll) [] op = "purgedev" -> PurgeDev(a[1]) [] OTHER -> FALSE
Init == cfg = [kind |-> 0, pa |-> 0, maxq |-> 0, asap |-> 0, adv |-> 0, guard |-> 0, online |-> 0] /\ hw = <<0, 0>> /\ s = Fresh /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
