---- MODULE MC_TimeSeries ----
EXTENDS TimeSeries, Json
CONSTANTS Types, Wins, Vals, MaxTot, Owns, Trips
VARIABLE hist               \* what was fed since the last wipe, oldest first
MCNext == /\ \/ live = 0 /\ \E ty \in Types, o \in Owns, n \in Wins : (o = 0 => n > 0) /\ Do("new", <<ty, o, n, 0>>, <<>>)
             \/ live = 1 /\ \/ Do("init", <<>>, <<>>) \/ Do("purge", <<>>, <<>>) \/ (own = 1 /\ \E n \in Wins : Do("window", <<n>>, <<>>))
                            \/ tot < MaxTot /\ \E x \in Vals : Do("feed", <<x>>, <<>>)
                            \/ ini = 1 /\ tot + w <= MaxTot /\ \E x, y \in Vals : Do("bulk", <<>>, <<[i \in 1..w |-> IF i = 1 THEN x ELSE y]>>)
                            \/ Do("value", <<>>, <<>>)
                            \/ \E c \in 0..3, f \in 0..2, ab \in 0..1 : (ab = 0 => f = 0) /\ Do("copy", <<c, f, ab>>, <<>>)
                            \/ \E m \in 0..3 : Do("which", <<m>>, <<>>)
                            \/ Do("minmax", <<>>, <<>>) \/ Do("mean", <<>>, <<>>) \/ Do("rms", <<>>, <<>>) \/ Do("stdev", <<>>, <<>>) \/ Do("median", <<>>, <<>>) \/ Do("snr", <<>>, <<>>)
                            \/ Trips = 1 /\ Do("trip", <<>>, <<>>)
          /\ hist' = (CASE last'.op = "feed" /\ ini = 1 -> Append(hist, last'.a[1])
                        [] last'.op = "bulk" /\ ini = 1 -> hist \o [i \in 1..w |-> mem'[((idx + i - 1) % w) + 1]]
                        [] last'.op \in {"new", "init", "purge", "window"} /\ last'.r[1] = 0 -> <<>>
                        [] OTHER -> hist)
MCSpec == Init /\ hist = <<>> /\ [][MCNext]_<<vars, hist>>
View == <<live, t, own, w, ini, mem, tot, idx, tr, hist>>
Dumped == <<live, t, own, w, ini, mem, tot, idx, tr>>
\* the memory is the window over the history, and everything is counted
Inv_Window == ini = 1 => /\ tot = Len(hist) /\ Len(mem) = w
                         /\ \A k \in 0..(MinI(w, tot) - 1) : Nth(k) = hist[tot - k]
Prop_Value == [][last'.op = "value" /\ Full => last'.r = <<hist[Len(hist)]>>]_<<vars, hist>>
Prop_Copy == [][last'.op = "copy" /\ last'.r[1] = 0 /\ last'.a[3] = 0 => Tail(last'.r) = SubSeq(hist, tot - last'.a[1] + 1, tot)]_<<vars, hist>>
Prop_Which == [][last'.op = "which" /\ Full /\ last'.a[1] < w => hist[last'.r[1] + 1] = mem[last'.a[1] + 1]]_<<vars, hist>>
\* statistics do not depend on where the window begins, and are ordered as they must be
Inv_Stats == Full => /\ Least * w <= Sum /\ Sum <= Most * w /\ VarN >= 0 /\ 2 * Least <= Med2 /\ Med2 <= 2 * Most /\ (VarN = 0 <=> Least = Most)
Dump == PrintT(<<"@E", ToJson(Dumped), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<live', t', own', w', ini', mem', tot', idx', tr'>>)>>)
====
