-------------------------- MODULE AsyncSequencer --------------------------
(* AsyncSequencer: steps with dependencies, run on request through dispatch and poll functions.
   Steps are indexed in list order; flag[i] is the bit number of step i, dep[i] the set of bits it depends on.
   The five status words are sets of bit numbers. *)
EXTENDS Util, TLC
VARIABLES flag, dep, req, able, running, done, pass, last
vars == <<flag, dep, req, able, running, done, pass, last>>
N == Len(flag)
Flags == {flag[i] : i \in 1..N}
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
SetOf(s) == {s[i] : i \in 1..Len(s)}
SortedSeq(S) == SelectSeq([i \in 1..32 |-> i - 1], LAMBDA b : b \in S)
Obs == <<SortedSeq(req), SortedSeq(able), SortedSeq(running), SortedSeq(done), SortedSeq(pass),
         IF N = 0 THEN <<>> ELSE
         <<Bit(running # {}), Bit(req \subseteq (pass \cap done)), Bit(req \subseteq done), Bit(able \subseteq done),
           Bit(able \subseteq pass)>>, SortedSeq(able \ pass), SortedSeq(done \ pass)>>

\* Everything the steps of S depend on, directly or not; unknown bits are dropped.
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {dep[i] : i \in {j \in 1..N : flag[j] \in S}}
                  F == T \cap Flags
              IN IF F = S THEN S ELSE Closure(F)

New(f, ds) == /\ flag' = f /\ dep' = [i \in 1..Len(f) |-> SetOf(ds[i])]
              /\ req' = {} /\ able' = {} /\ running' = {} /\ done' = {} /\ pass' = {} /\ Res("new", f, ds, <<Len(f)>>)
Request(m) == req' = req \cup Closure(SetOf(m)) /\ UNCHANGED <<flag, dep, able, running, done, pass>> /\ Res("request", m, <<>>, <<0>>)
ResetSteps(m) == LET S == SetOf(m) IN
  /\ req' = req \ S /\ able' = able \ S /\ running' = running \ S /\ done' = done \ S /\ pass' = pass \ S
  /\ UNCHANGED <<flag, dep>> /\ Res("resetsteps", m, <<>>, <<0>>)
ResetAll == /\ req' = {} /\ able' = {} /\ running' = {} /\ done' = {} /\ pass' = {} /\ UNCHANGED <<flag, dep>> /\ Res("resetall", <<>>, <<>>, <<0>>)
SetState(ds) == /\ req' = SetOf(ds[1]) /\ able' = SetOf(ds[2]) /\ running' = SetOf(ds[3]) /\ done' = SetOf(ds[4]) /\ pass' = SetOf(ds[5])
                /\ UNCHANGED <<flag, dep>> /\ Res("setstate", <<>>, ds, <<0>>)

\* One pass.  dres[i]/pres[i] is what step i's dispatch/poll function answers if called: 1 success, 0 again, other failure.
\* Dispatch considers the steps that were runnable, not running and not complete when the pass began; polling considers
\* whatever is running after the dispatches.  Dependencies are evaluated on the state the pass began with.
Poll(dres, pres) ==
  LET disp  == {i \in 1..N : flag[i] \in (able \ done) \ running}
      able2 == able \cup {flag[i] : i \in {j \in 1..N : dep[j] \subseteq pass /\ flag[j] \in req}}
      dOk   == {flag[i] : i \in {j \in disp : dres[j] = 1}}
      dBad  == {flag[i] : i \in {j \in disp : dres[j] \notin {0, 1}}}
      run1  == (running \cup dOk) \ dBad
      done1 == (done \ dOk) \cup dBad
      pass1 == (pass \ dOk) \ dBad
      poll  == {i \in 1..N : flag[i] \in run1}
      pOk   == {flag[i] : i \in {j \in poll : pres[j] = 1}}
      pBad  == {flag[i] : i \in {j \in poll : pres[j] \notin {0, 1}}}
      run2  == run1 \ (pOk \cup pBad)
      done2 == done1 \cup pOk \cup pBad
      pass2 == (pass1 \cup pOk) \ pBad
      sd(A, B) == Cardinality((A \ B) \cup (B \ A))
      calls == [i \in 1..(2 * N) |-> IF i <= N THEN Bit(i \in disp) ELSE Bit((i - N) \in poll)]
  IN /\ able' = able2 /\ running' = run2 /\ done' = done2 /\ pass' = pass2 /\ UNCHANGED <<flag, dep, req>>
     /\ Res("poll", <<>>, <<dres, pres>>,
            <<sd(running, run2) + sd(done, done2) + sd((able \ done) \ running, (able2 \ done2) \ run2)>> \o calls)

Mask(m) == LET S == SetOf(m) IN
  /\ UNCHANGED <<flag, dep, req, able, running, done, pass>>
  /\ Res("mask", m, <<>>, <<Bit(S \subseteq done), Bit(S \subseteq pass), Bit(S \subseteq running), Bit(S \subseteq req)>>)

Do(op, a, d) ==
  CASE op = "new" -> New(a, d) [] op = "request" -> Request(a) [] op = "resetsteps" -> ResetSteps(a)
    [] op = "resetall" -> ResetAll [] op = "setstate" -> SetState(d) [] op = "poll" -> Poll(d[1], d[2])
    [] op = "mask" -> Mask(a) [] OTHER -> FALSE
Init == /\ flag = <<>> /\ dep = <<>> /\ req = {} /\ able = {} /\ running = {} /\ done = {} /\ pass = {}
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
