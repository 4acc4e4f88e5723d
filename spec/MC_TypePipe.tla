---- MODULE MC_TypePipe ----
EXTENDS TypePipe, Json
CONSTANTS Maxs, Rooms, Links, Raw, MaxWant, MaxUp
VARIABLE want              \* values accepted at the source and not yet delivered
Vals == {<<V!Plain(1, <<0, 5, 0, 0, 0>>)>>, <<V!Plain(1, <<1, 300, 0, 0, 0>>)>>, <<V!Plain(3, <<97>>)>>, <<V!Keyed(<<98>>, V!Plain(4, <<1>>))>>}
FlatV(n) == <<1, Len(n)>> \o Flat(n)
MCNext == /\ \/ on = 0 /\ \E m \in Maxs, c \in 0..1, l \in Links, r \in Rooms : Do("new", <<m, c, l, r>>, <<>>)
             \/ on = 1 /\ \/ \E n \in Vals, t \in 0..1 : Len(want) < MaxWant /\ (Raw = 0 \/ Len(wire) < MaxUp) /\ (t = 1 => n[1][1] = 0) /\ Do("value", <<t>>, n)
                          \/ \E r \in Rooms : r # room /\ Do("room", <<r>>, <<>>)
                          \/ \E k \in 1..3 : k <= Len(wire) /\ Len(up) < MaxUp /\ Do("carry", <<k>>, <<>>)
                          \/ Do("push", <<>>, <<>>)
                          \/ Raw = 1 /\ \E b \in {24, 97, 160} : Len(up) < MaxUp /\ Len(wire) < MaxUp /\ (Do("feed", <<>>, <<<<b>>>>) \/ Do("pass", <<>>, <<<<b, 0>>>>))
                          \/ Raw = 1 /\ up # <<>> /\ Do("discard", <<>>, <<>>)
                          \/ Raw = 1 /\ \E l \in Links : l # link /\ Do("link", <<l>>, <<>>)
          /\ want' = (LET w == IF last'.op = "value" /\ last'.r[1] = 0 THEN Append(want, FlatV(last'.d)) ELSE want IN
                      IF Raw = 1 \/ got' = <<>> THEN (IF Raw = 1 THEN <<>> ELSE w)
                      ELSE LET k == CHOOSE k \in 0..Len(w) : Flat(SubSeq(w, 1, k)) = got' IN Drop(w, k))
MCInit == Init /\ want = <<>>
MCSpec == MCInit /\ [][MCNext]_<<vars, want>>
View == <<on, link, room, wire, up, max, cb, want>>
Dumped == <<on, link, room, wire, up, max, cb>>
\* what is underway is exactly what was accepted and not delivered (the choice of k above fails if anything else were delivered)
Inv_Order == Raw = 0 /\ on = 1 => LET RECURSIVE e(_)
                                      e(w) == IF w = <<>> THEN <<>> ELSE V!EncNodes(V!Cut(Drop(Head(w), 2))) \o e(Tail(w)) IN
                                  up \o wire = e(want)
\* a sink that delivers, and whose window holds every value, leaves less than one value when it is pushed
Prop_Drain == [][last'.op = "push" /\ cb = 1 /\ max >= 8 /\ Raw = 0 => Len(up') < 4]_vars
Prop_All == [][last'.op = "value" /\ last'.r[1] < 0 => wire' = wire /\ room' = room /\ got' = <<>> /\ sent' = sent]_vars
Dump == PrintT(<<"@E", ToJson(Dumped), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<on', link', room', wire', up', max', cb'>>)>>)
====
