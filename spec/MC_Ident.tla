---- MODULE MC_Ident ----
EXTENDS Ident, Json
CONSTANTS Small, Keys, Lens, Ks
Texts == IF Small = 1 THEN {<<65, 45, 98>>, ToText(Gen([i \in 1..16 |-> 255]))} ELSE {<<>>, <<102>>, <<65, 45, 98>>, ToText(Gen([i \in 1..16 |-> 255])), <<48, 49, 50, 103, 51>>}
Words == IF Small = 1 THEN {[i \in 1..16 |-> 15 * i]} ELSE {[i \in 1..16 |-> 0], [i \in 1..16 |-> 15 * i]}
Nm == IF Small = 1 THEN {<<>>, <<97>>} ELSE {<<>>, <<97>>, <<97, 98>>}
Cut == {[store EXCEPT ![Len(store)] = 0], Take(store, Len(store) - 1), store \o <<7>>, [store EXCEPT ![2] = IF @ > 0 THEN @ - 1 ELSE 255], [store EXCEPT ![2] = (@ + 1) % 256],
        [store EXCEPT ![5] = 1], [i \in 1..Len(store) |-> IF i > 5 /\ store[i] = 0 THEN 1 ELSE store[i]], Take(store, 6)}
MCNext == \/ \E k \in Ks : \/ \E s \in Texts : Do("ufrom", <<k>>, <<s>>)
                           \/ \E w \in Words : Do("ugen", <<k>>, <<w>>)
                           \/ \E j \in Ks : Do("ucopy", <<k, j>>, <<>>) \/ Do("ucmp", <<k, j>>, <<>>)
                           \/ \E n \in Lens : Do("uto", <<k, n>>, <<>>)
                           \/ Do("usb", <<k>>, <<>>)
          \/ \E k \in Keys : \/ \E h \in Nm : (\E w \in Words : Do("igen", <<k>>, <<h, w>>)) \/ (\E s \in Texts : Do("istr", <<k>>, <<h, s>>)) \/ Do("iname", <<k>>, <<h>>)
                             \/ Do("iload", <<k>>, <<>>) \/ Do("idel", <<k>>, <<>>) \/ Do("itext", <<k>>, <<>>)
                             \/ \E n \in {-1} \cup Lens : Do("iser", <<k, n>>, <<>>)
                             \/ \E b \in 0..1 : Do("iself", <<k, b>>, <<>>)
                             \/ \E f \in 0..3 : Do("ifmt", <<k, f>>, <<>>)
                             \/ (store # <<>> /\ \E b \in Cut : Do("ifrom", <<k>>, <<b>>))
MCSpec == Init /\ [][MCNext]_vars
View == <<u, id, store>>
Ids == {k \in 1..2 : id[k].on = 1}
\* the text of a UUID is that UUID again, and it is the text of the RFC
TextInv == \A k \in 1..3 : FromText(ToText(u[k]), Zero) = u[k] /\ Len(ToText(u[k])) = 36
\* storage loses nothing but validity and dirtiness, and takes the announced room
StoreInv == \A k \in Ids : /\ Load(Ser(id[k])) = [id[k] EXCEPT !.fl = Kept(@)]
                           /\ Len(Ser(id[k])) = Size(id[k])
                           /\ Load(Ser(id[k]) \o <<1, 2, 3>>) = Load(Ser(id[k]))
\* a truncated record is never an identity
CutInv == \A k \in Ids : \A n \in 0..(Size(id[k]) - 1) : ~Good(Take(Ser(id[k]), n))
GenInv == \A k \in Ids : Has(id[k].fl, VALID) => id[k].q[7] \div 16 = 4 /\ id[k].q[9] \div 64 = 2
Prop_Fail == [][last'.op = "iser" /\ last'.r[1] <= 0 => store' = store]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
