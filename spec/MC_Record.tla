---- MODULE MC_Record ----
EXTENDS Record, Json
CONSTANTS MaxPay, Full
VARIABLE disk, was       \* the last image written, and the payload it was of
Tag1 == <<1, 2, 3, 4>>
Tag2 == <<1, 2, 3, 200>>
Names == {<<>>, [i \in 1..17 |-> 98]} \cup (IF Full = 1 THEN {<<97>>} ELSE {})
Pays == {<<>>} \cup {<<255>>, <<7>>, <<7, 255>>, <<0, 0, 0>>}
Put(b, i, x) == [j \in 1..Len(b) |-> IF j = i THEN x ELSE b[j]]
Altered == IF disk = <<>> THEN {<<>>, <<1>>}
  ELSE {disk, disk \o <<9>>, disk \o <<255, 255>>, Take(disk, Len(disk) - 1), Take(disk, 40), Take(disk, 39)}
       \cup { Put(disk, i, IF disk[i] = 0 THEN 1 ELSE 0) : i \in {4, 5, 6, 7, 8, 24, 25, 28, 36, 40} }
Step == IF ~made THEN Do("new", <<4>>, <<>>)
        ELSE \/ \E p \in Pays : Len(p) <= MaxPay /\ pay # p /\ Do("pay", <<>>, <<p>>)
             \/ \E x \in 0..1 : fails # x /\ Do("fail", <<x>>, <<>>)
             \/ \E t \in {Tag1} \cup (IF Full = 1 THEN {Tag2} ELSE {}), n \in Names : Do("save", <<>>, <<t, n>>)
             \/ \E v \in 0..1, t \in {Tag1, Tag2}, b \in Altered : (Full = 0 => t = Tag1 \/ b = disk) /\ Do("load", <<v>>, <<t, b>>)
             \/ Do("stat", <<>>, <<>>) \/ Do("name", <<>>, <<>>)
             \/ (~sure /\ Do("new", <<4>>, <<>>))
MCNext == Step /\ disk' = (IF last'.op = "save" /\ last'.r[1] = 0 THEN Drop(last'.r, 1) ELSE disk)
               /\ was' = (IF last'.op = "save" /\ last'.r[1] = 0 THEN pay ELSE was)
MCInit == Init /\ disk = <<>> /\ was = <<>>
MCSpec == MCInit /\ [][MCNext]_<<vars, disk, was>>
View == <<made, kind, fmt, key, stamp, hashlen, loaded, sure, pay, fails, disk, was>>
\* what was written is read back whole by a record of its kind under its tag, whatever follows it, and by no other
Readable == disk # <<>> /\ (was = <<>> \/ was[1] # 255) =>
              \A x \in {disk, disk \o <<255, 255>>} : LoadRes(4, SubSeq(disk, 1, 4), x) = <<0, was>> /\ LoadRes(5, SubSeq(disk, 1, 4), x)[1] < 0
\* any part of it missing, it is refused
Whole == disk # <<>> => \A n \in 0..(Len(disk) - 1) : LoadRes(4, SubSeq(disk, 1, 4), Take(disk, n))[1] < 0
\* a refused load leaves the payload alone; nothing but a load replaces it
Prop_Refused == [][(last'.op = "load" /\ last'.r[1] < 0) \/ last'.op \in {"save", "stat", "name"} => pay' = pay]_vars
Prop_Clean == [][(last'.op \in {"save", "load"} /\ last'.r[1] = 0) => hashlen' = Len(pay')]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
