---- MODULE MC_AsyncSequencer ----
EXTENDS AsyncSequencer, Json
CONSTANTS Answers, Lists
\* dependency shapes: chain, reverse-listed chain, fork, join, diamond with an unknown bit
L3 == {<< <<0, 1, 2>>, << <<>>, <<0>>, <<1>> >> >>, << <<0, 1, 2>>, << <<1>>, <<2>>, <<>> >> >>,
       << <<0, 1, 2>>, << <<>>, <<0>>, <<0>> >> >>, << <<2, 0, 1>>, << <<0, 1>>, <<>>, <<>> >> >>}
L2 == {<< <<0, 1>>, << <<>>, <<0>> >> >>, << <<31, 0>>, << <<0>>, <<>> >> >>, << <<3, 4>>, << <<>>, <<3, 9>> >> >>}
LQ == L2 \cup L3
Masks == {<<f>> : f \in Flags} \cup {SortedSeq(Flags)}
MCNext == IF N = 0 THEN \E l \in Lists : Do("new", l[1], l[2])
          ELSE \/ \E m \in Masks : Do("request", m, <<>>) \/ Do("resetsteps", m, <<>>)
               \/ Do("resetall", <<>>, <<>>)
               \/ \E m \in Masks : Do("mask", m, <<>>)
               \/ \E dr \in [1..N -> Answers] : /\ \A i \in 1..N : (flag[i] \in (able \ done) \ running) \/ dr[i] = 0
                                        /\ \E pr \in [1..N -> Answers] :
                                             /\ \A i \in 1..N : flag[i] \in running \/ dr[i] = 1 \/ pr[i] = 0
                                             /\ Do("poll", <<>>, <<dr, pr>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<flag, dep, req, able, running, done, pass>>
Deps(f) == UNION {dep[i] : i \in {j \in 1..N : flag[j] = f}}
Sane == running \cap done = {} /\ pass \subseteq done
\* a step first becomes runnable only when it was requested and everything it depends on has passed
Prop_Order == [][(last'.op = "poll") => \A f \in able' \ able : f \in req /\ Deps(f) \subseteq pass]_vars
\* only runnable steps are ever dispatched, only dispatched ones polled
Prop_Disp == [][(last'.op = "poll") => \A i \in 1..N :
     /\ (last'.r[1 + i] = 1 => flag[i] \in able /\ flag[i] \notin done /\ flag[i] \notin running)
     /\ (last'.r[1 + N + i] = 1 => flag[i] \in running \/ last'.r[1 + i] = 1)]_vars
\* nothing below a failed step runs before that step is reset
Prop_Req == [][(last'.op = "request") => \A f \in req' \cap Flags : (f \in req' \ req) => Deps(f) \cap Flags \subseteq req']_vars
Prop_Result == [][(last'.op = "poll") => ((last'.r[1] = 0) => running' = running /\ done' = done)]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
