---- MODULE MC_Timers ----
EXTENDS Timers, Json
CONSTANTS Pers, Waits, MaxAge, MaxN, Bases
Enabled(w) == age <= (IF unit = 1 THEN MaxAge ELSE MaxAge * 1000) /\ run <= MaxAge * 1000
MCNext == IF unit < 0 THEN \E u \in 0..1, p \in Pers, b \in Bases : Do("new", <<u, b, p>>, <<>>)
          ELSE \/ \E w \in Waits : Enabled(w) /\ Do("wait", w, <<>>)
               \/ \E o \in {"reset", "trigger", "clear"} : Do(o, <<>>, <<>>)
               \/ \E o \in {"resetp", "period"}, p \in Pers : Do(o, <<p>>, <<>>)
               \/ Do("start", <<>>, <<>>) \/ (n < MaxN /\ Do("stop", <<>>, <<>>))
MCSpec == Init /\ [][MCNext]_vars
View == <<unit, per, age, sub, run, n, tot, best, worst, lastt>>
W0 == {<<0, 500>>, <<1, 0>>}
\* a timeout never expires early, and reports the time that is left
Never_early == unit >= 0 => (Expired <=> (per = 0 \/ age >= per))
Remaining == (unit >= 0 /\ ~Expired) => per - age > 0
Stats == n > 0 => best <= worst /\ best * n <= tot /\ tot <= worst * n /\ best <= lastt /\ lastt <= worst
Prop_Once == [][(last'.op = "stop") => (last'.r[1] = 1 <=> run >= 0) /\ run' = -1]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
