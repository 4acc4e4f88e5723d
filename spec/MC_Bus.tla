---- MODULE MC_Bus ----
EXTENDS Bus, Json
CONSTANTS Full, MaxDo, Tot
VARIABLES n,             \* jobs made, so far
          owed           \* per slot: transfers asked for and not yet answered (ghost)
Cfgs == { <<1, 1, 1, 0, 0, 0, 0>>, <<1, 1, 1, 1, 1, 0, 0>>, <<2, 1, 1, 0, 0, 1, 0>>, <<2, 1, 2, 0, 1, 0, 0>> } \cup (IF Full = 1 THEN {<<1, 2, 1, 1, 0, 0, -1>>, <<2, 2, 1, 0, 0, 1, -1>>} ELSE {})
\* own, cb, recs, nxt, veto, buf
Kinds == IF Full = 2 THEN { <<2, 1, 1, 0, 0, 1>>, <<1, 2, 0, 2, 0, 2>> } ELSE { <<1, 1, 0, 0, 0, 3>>, <<2, 1, 1, 0, 0, 1>>, <<2, 2, 0, 2, 0, 2>> } \cup (IF Full = 1 THEN { <<1, 2, 0, 3, 1, 1>>, <<1, 0, 0, 0, 1, 2>>, <<2, 2, -1, 0, 0, 3>> } ELSE {})
Step == IF cfg.kind = 0 THEN \E c \in Cfgs : Do("new", c, <<>>)
        ELSE \/ \E j \in 1..Slots, k \in Kinds : n < MaxDo /\ (k[4] = 0 \/ k[4] > j) /\ s.ops[j].own = 0 /\ (\A i \in 1..(j - 1) : s.ops[i].own # 0) /\ Do("job", <<j>> \o k, <<>>)
             \/ \E j \in 1..Slots : s.ops[j].own # 0 /\ (Do("submit", <<j, 0>>, <<>>) \/ (SPI /\ j = Slots /\ Do("submit", <<j, 1>>, <<>>)) \/ (s.ops[j].own = 1 /\ Do("drop", <<j>>, <<>>)))
             \/ Do("poll", <<>>, <<>>) \/ (SPI /\ Do("serve", <<>>, <<>>))
             \/ \E ok \in 0..1 : Do("irq", <<ok>>, <<>>)
             \/ \E w \in 0..1 : Do("purge", <<w>>, <<>>)
             \/ \E d \in 1..2 : Do("purgedev", <<d>>, <<>>)
             \/ \E h \in {<<0, 0>>, <<1, 1>>} \cup (IF Full = 2 THEN {} ELSE {<<2, 2>>, <<3, 0>>}) : h # hw /\ (Full = 1 \/ s.cur = 0) /\ Do("hw", h, <<>>)
\* what the events of a step say: queued (3, k, r), told (2, j, f), begun (1, j)
RECURSIVE Parse(_, _)
Parse(e, i) == IF i > Len(e) THEN <<>> ELSE IF e[i] = 1 THEN <<<<1, e[i + 1], 0>>>> \o Parse(e, i + 2)
               ELSE <<<<e[i], e[i + 1], e[i + 2]>>>> \o Parse(e, i + 3)
Events == Parse(last'.r, 2)
Told(j) == Cardinality({ i \in 1..Len(Events) : Events[i][1] = 2 /\ Events[i][2] = j })
Asked(j) == Cardinality({ i \in 1..Len(Events) : Events[i][1] = 3 /\ Events[i][2] = j /\ Events[i][3] \in {0, -1} })
Purging == last'.op \in {"purge", "purgedev"}
\* recs went down: it was told to go again
Redo(j) == IF s.ops[j].own # 0 /\ s'.ops[j].own # 0 /\ s'.ops[j].recs < s.ops[j].recs THEN s.ops[j].recs - s'.ops[j].recs ELSE 0
New1(j) == IF last'.op = "submit" /\ last'.a[1] = j /\ (last'.r[1] = 0 \/ (SPI /\ last'.r[1] = -1)) THEN 1 ELSE 0
MCNext == /\ Step
          /\ n' = (IF last'.op = "new" THEN 0 ELSE IF last'.r = <<-99>> THEN n
                      ELSE IF last'.op = "job" THEN n + 1 ELSE n)
          /\ owed' = (IF last'.op = "new" THEN [j \in 1..Slots |-> 0]
                      ELSE IF last'.op \in {"drop", "hw"} THEN owed
                      ELSE IF last'.r = <<-99>> THEN owed
                      ELSE IF last'.op = "job" THEN [owed EXCEPT ![last'.a[1]] = 0]
                      ELSE [j \in 1..Slots |-> owed[j] + New1(j) + Asked(j) + Redo(j) - Told(j)])
MCInit == Init /\ n = 0 /\ owed = [j \in 1..Slots |-> 0]
MCSpec == MCInit /\ [][MCNext]_<<vars, n, owed>>
View == <<cfg, hw, s, n, owed>>
EView == <<cfg, hw, s, n>>
Where(j) == Bit(s.cur = j) + Bit(In(s.q, j)) + Bit(In(s.cbq, j))
\* a job is in one place at most: under way, waiting, or finished and to be told of; and nowhere else when somebody waits for it
Inv_Place == \A j \in 1..Slots : Where(j) <= 1 /\ (s.ops[j].own = 0 \/ s.ops[j].st = IDLE => Where(j) = 0)
                                 /\ (s.ops[j].own # 0 /\ s.ops[j].st # IDLE => Where(j) = 1)
\* each transfer asked for is answered once
Inv_Owed == \A j \in 1..Slots : s.ops[j].cb # 0 => owed[j] = Where(j)
\* at most one has the bus, and with SPI its select line
Inv_Bus == \A j \in 1..Slots : (s.ops[j].st = WAIT => s.cur = j) /\ (s.ops[j].cs = 1 <=> SPI /\ s.ops[j].st = WAIT)
\* the pool's jobs are all accounted for
Inv_Pool == Held(s, 2) <= cfg.pa /\ Held(s, 3) = s.over - s.freed /\ s.over - s.freed <= cfg.maxq
\* purging by device leaves none of that device's jobs waiting
Prop_Purged == [][last'.op = "purgedev" => \A i \in 1..Len(s'.q) : s'.ops[s'.q[i][1]].cb # last'.a[1]]_vars
Prop_PurgedAll == [][last'.op = "purge" /\ last'.a[1] = 1 => s'.q = <<>>]_vars
\* jobs that wait keep their order among themselves
Prop_Order == [][last'.op # "new" => \A i, j \in 1..Len(s.q) : i < j /\ In(s'.q, s.q[i][1]) /\ In(s'.q, s.q[j][1]) =>
                   LET at(x) == CHOOSE k \in 1..Len(s'.q) : s'.q[k][1] = x IN
                   at(s.q[i][1]) < at(s.q[j][1]) \/ \E e \in 1..Len(Events) : Events[e][1] = 2 /\ Events[e][2] = s.q[i][1]]_vars
Dump == PrintT(<<"@E", ToJson(EView), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<cfg', hw', s', n'>>)>>)
ENext == Step /\ n' = (IF last'.op = "new" THEN 0 ELSE IF last'.r = <<-99>> THEN n
                      ELSE IF last'.op = "job" THEN n + 1 ELSE n) /\ UNCHANGED owed
ESpec == MCInit /\ [][ENext]_<<vars, n, owed>>
Bounded == s.total <= Tot /\ n <= MaxDo
====
