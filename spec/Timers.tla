------------------------------ MODULE Timers ------------------------------
(* PeriodicTimeout (over millis() and over micros()) and StopWatch.  All times are elapsed times: where the 32-bit clock
   happens to stand, and whether it wraps meanwhile, must not show.  Elapsed times saturate at Big in the specification. *)
EXTENDS Util, TLC
VARIABLES unit,                \* the timeout counts in milliseconds (1) or microseconds (0); -1: nothing constructed
          per, age,            \* its period; time since it was last marked
          sub,                 \* microseconds beyond whole milliseconds of the clock
          run,                 \* stopwatch: time since markStart, -1 if not running
          n, tot, best, worst, lastt,
          last
vars == <<unit, per, age, sub, run, n, tot, best, worst, lastt, last>>
Big == 1073741824
Cap(x) == MinI(x, Big)
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
Expired == per = 0 \/ age >= per
Obs == <<IF unit < 0 THEN <<>> ELSE <<per, Bit(per > 0), Bit(Expired), IF Expired THEN 0 ELSE per - age>>,
         IF unit < 0 THEN <<>> ELSE <<n, lastt, IF n = 0 THEN -1 ELSE best, worst, tot, IF n = 0 THEN 0 ELSE tot \div n>>>>
SW == <<run, n, tot, best, worst, lastt>>
TM == <<unit, per, age>>

New(u, base, p) ==  \* constructed, then reset; base only places the clock
  /\ unit' = u /\ per' = p /\ age' = 0 /\ sub' = 0 /\ run' = -1 /\ n' = 0 /\ tot' = 0 /\ best' = 0 /\ worst' = 0 /\ lastt' = 0
  /\ Res("new", <<u, base, p>>, <<0>>)
\* us < 1000000, ms any: advance the clock by ms milliseconds and us microseconds.
Wait(ms, us) ==
  /\ UNCHANGED <<unit, per, n, tot, best, worst, lastt>>
  /\ sub' = (sub + us) % 1000
  /\ age' = IF unit = 1 THEN Cap(age + ms + ((sub + us) \div 1000))
            ELSE Cap(IF ms >= 1000000 THEN Big ELSE age + ms * 1000 + us)
  /\ run' = IF run < 0 THEN -1 ELSE Cap(IF ms >= 1000000 THEN Big ELSE run + ms * 1000 + us)
  /\ Res("wait", <<ms, us>>, <<0>>)
Reset == /\ age' = 0 /\ UNCHANGED <<unit, per, sub, SW>> /\ Res("reset", <<>>, <<0>>)
ResetP(p) == age' = 0 /\ per' = p /\ UNCHANGED <<unit, sub, SW>> /\ Res("resetp", <<p>>, <<0>>)
Period(p) == per' = p /\ UNCHANGED <<unit, age, sub, SW>> /\ Res("period", <<p>>, <<0>>)
Trigger == age' = Cap(per + 1) /\ UNCHANGED <<unit, per, sub, SW>> /\ Res("trigger", <<>>, <<0>>)
Start == run' = 0 /\ UNCHANGED <<TM, sub, n, tot, best, worst, lastt>> /\ Res("start", <<>>, <<0>>)
Stop == /\ UNCHANGED <<TM, sub>>
        /\ IF run < 0 THEN UNCHANGED SW /\ Res("stop", <<>>, <<0>>)
           ELSE /\ run' = -1 /\ n' = n + 1 /\ tot' = tot + run /\ lastt' = run
                /\ best' = IF n = 0 THEN run ELSE MinI(best, run)
                /\ worst' = MaxI(worst, run)
                /\ Res("stop", <<>>, <<1>>)
Clear == run' = run /\ n' = 0 /\ tot' = 0 /\ best' = 0 /\ worst' = 0 /\ lastt' = 0 /\ UNCHANGED <<TM, sub>> /\ Res("clear", <<>>, <<0>>)

Do(op, a, d) ==
  CASE op = "new" -> New(a[1], a[2], a[3]) [] op = "wait" -> Wait(a[1], a[2])
    [] op = "reset" -> Reset [] op = "resetp" -> ResetP(a[1]) [] op = "period" -> Period(a[1]) [] op = "trigger" -> Trigger
    [] op = "start" -> Start [] op = "stop" -> Stop [] op = "clear" -> Clear [] OTHER -> FALSE
Init == /\ unit = -1 /\ per = 0 /\ age = 0 /\ sub = 0 /\ run = -1 /\ n = 0 /\ tot = 0 /\ best = 0 /\ worst = 0 /\ lastt = 0
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
