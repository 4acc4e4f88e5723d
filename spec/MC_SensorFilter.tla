---- MODULE MC_SensorFilter ----
EXTENDS SensorFilter, Json
CONSTANTS Dims, Types, Units1, Wins, Vals, MaxTot, Owns, Strats
Vs == {x - 3 : x \in Vals}
VARIABLE hist               \* what was fed since the last wipe, oldest first
MCNext == /\ \/ live = 0 /\ \E dm \in Dims, ty \in Types, un1 \in Units1, o \in Owns, n \in Wins, s \in Strats : Do("new", <<dm, ty, un1, o, n, s>>, <<>>)
             \/ live = 1 /\ \/ Do("init", <<>>, <<>>) \/ Do("purge", <<>>, <<>>) \/ (\E n \in Wins : Do("window", <<n>>, <<>>))
                            \/ tot < MaxTot /\ Len(hist) < MaxTot /\ \E x \in [1..dim -> Vs] : Do("feed", x, <<>>)
                            \/ ini = 1 /\ tot + w <= MaxTot /\ \E x, y \in Vs : Do("bulk", <<>>, <<[i \in 1..(w * dim) |-> IF i = 1 THEN x ELSE y]>>)
                            \/ Do("value", <<>>, <<>>)
                            \/ \E s \in Strats : Do("strat", <<s>>, <<>>)
                            \/ Do("minmax", <<>>, <<>>) \/ Do("mean", <<>>, <<>>) \/ Do("rms", <<>>, <<>>) \/ Do("stdev", <<>>, <<>>) \/ Do("median", <<>>, <<>>) \/ Do("snr", <<>>, <<>>) \/ Do("ser", <<>>, <<>>)
          /\ hist' = (CASE last'.op = "feed" /\ ini = 1 -> Append(hist, last'.a)
                        [] last'.op = "bulk" /\ last'.r = <<0>> -> hist \o mem'
                        [] last'.op \in {"new", "init", "purge", "window"} /\ last'.r[1] = 0 /\ w' > 0 -> <<>>
                        [] last'.op \in {"purge", "window"} /\ last'.r[1] = -1 /\ w = 0 -> <<>>
                        [] OTHER -> hist)
MCSpec == Init /\ hist = <<>> /\ [][MCNext]_<<vars, hist>>
View == <<live, dim, t, u, own, w, ini, mem, tot, idx, full, dirty, strat, lv, sure, hist>>
Dumped == <<live, dim, t, u, own, w, ini, mem, tot, idx, full, dirty, strat, lv, sure>>
Recent == SubSeq(hist, Len(hist) - w + 1, Len(hist))
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
\* a full window holds what was fed most recently; full as soon as there is that much
Inv_Window == ini = 1 /\ w > 0 => /\ tot = Len(hist) /\ (full = 1 => Bag(mem) = Bag(Recent)) /\ (full = 1 <=> tot >= w)
\* the output is in the range of what was fed (of zero, which an average starts from)
Inv_Output == ini = 1 /\ sure = 1 => \A i \in 1..dim : LET m == IF strat = AVG THEN 1 ELSE 2
                                                            s == {0} \cup {hist[k][i] : k \in 1..Len(hist)} IN
                (\E x \in s : m * x <= lv[i] + (IF Exact THEN 0 ELSE 1)) /\ (\E x \in s : lv[i] <= (m * x) + (IF Exact THEN 0 ELSE 1))
\* statistics do not depend on where the window begins, and are ordered as they must be
Inv_Stats == Ready => \A i \in 1..dim : LET s == Col(mem, i) IN
                /\ Sum(s) = Sum(Col(Recent, i)) /\ Med2(s) = Med2(Col(Recent, i)) /\ VarN(s) = VarN(Col(Recent, i)) /\ VarN(s) >= 0
                /\ (VarN(s) = 0 <=> \A k \in 1..w : s[k] = s[1])
\* a full window is sent in the order it was fed
Prop_Ser == [][last'.op = "ser" /\ Ready => SubSeq(last'.r, 7, Len(last'.r)) = Flat(Recent)]_<<vars, hist>>
Prop_Raw == [][last'.op = "value" /\ strat = RAW /\ last'.r[1] = 1 /\ hist # <<>> /\ lv # Zero => last'.r = <<1>> \o [i \in 1..dim |-> lv[i]]]_<<vars, hist>>
\* values are only ever new once
Prop_Dirty == [][last'.op = "value" => dirty' = 0]_<<vars, hist>>
Dump == PrintT(<<"@E", ToJson(Dumped), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<live', dim', t', u', own', w', ini', mem', tot', idx', full', dirty', strat', lv', sure'>>)>>)
====
