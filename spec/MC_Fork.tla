---- MODULE MC_Fork ----
EXTENDS Fork, Json
CONSTANTS Haves, MaxBuf, MaxRoom, MaxBurst, Hist, MaxIn, Swaps
VARIABLES sent, out      \* everything fed; everything each side received (with Hist)
mcvars == <<vars, sent, out>>
Next0 == IF have[1] < 0 THEN \E h \in Haves : Do("new", h, <<>>)
          ELSE \/ \E n \in 1..2 : Len(buf) + n <= MaxBuf /\ Len(sent) + n <= MaxIn /\ Do("feed", <<>>, <<[i \in 1..n |-> (IF Hist THEN Len(sent) ELSE Len(buf)) + i]>>)
               \/ \E i \in Sides, n \in 0..MaxRoom, m \in 0..MaxBurst : (room[i] # n \/ burst[i] # m) /\ Do("room", <<i, n, m>>, <<>>)
               \/ (Swaps /\ \E i \in 1..2 : Do("swap", <<i>>, <<>>))
               \/ Do("push", <<>>, <<>>)
MCNext == /\ Next0
          /\ IF ~Hist \/ last'.op = "new" THEN UNCHANGED <<sent, out>>
             ELSE /\ sent' = (IF last'.op = "feed" THEN sent \o last'.d[1] ELSE sent)
                  /\ out' = [i \in 1..2 |-> out[i] \o got'[i]]
H0 == {<<1, 1>>, <<1, 0>>, <<0, 1>>, <<0, 0>>}
MCInit == Init /\ sent = <<>> /\ out = <<<<>>, <<>>>>
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<have, buf, room, burst, ahead, sent, out>>
Ahead == have[1] >= 0 => (ahead[1] = 0 \/ ahead[2] = 0) /\ \A i \in 1..2 : ahead[i] <= Len(buf)
\* each connected side has received exactly the bytes fed, in order, up to where it stands
Stream == (Hist /\ ~Swaps /\ have[1] >= 0) => \A i \in Sides : out[i] = Take(sent, Len(sent) - Len(buf) + ahead[i]) 
Prop_Result == [][(last'.op = "push") => (last'.r[1] = -1 <=> buf' = buf) /\ (last'.r[1] = 1 <=> buf # <<>> /\ buf' = <<>>)]_mcvars
Dump == PrintT(<<"@E", ToJson(<<have, buf, room, burst, ahead>>), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<have', buf', room', burst', ahead'>>)>>)
====
