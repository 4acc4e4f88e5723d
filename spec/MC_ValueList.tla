---- MODULE MC_ValueList ----
EXTENDS ValueList, Json
CONSTANTS MaxNodes, KeySet, Kinds, Tys, Sets
KeyNone == {<<>>}
Val(ty) == CASE ty = 1 -> <<1, 2, 3, 4>> [] ty = 2 -> <<65, 66>> [] ty = 3 -> <<0, 255, 7>> [] ty = 4 -> <<67, 68, 69, 70>> [] OTHER -> <<5, 6, 7>>
Val2(ty) == CASE ty = 1 -> <<9, 8, 7, 255>> [] ty = 2 -> <<71>> [] ty = 3 -> <<1>> [] ty = 4 -> <<>> [] OTHER -> <<1, 1, 2>>
Keys1 == {<<97>>}
Keys0 == {<<97>>, <<98, 99>>}
Order == Len(node) = 0
MCNext ==
  \/ Len(node) < MaxNodes /\ \E k \in Kinds, ty \in Tys, own \in 0..1, key \in KeySet :
       (k \in {0, 3} => key = <<97>>) /\ Do("new", <<k, ty, own>>, <<IF k \in {0, 3} THEN <<>> ELSE key, Val(ty)>>)
  \/ \E i, j \in 1..Len(lists), r \in 0..1 : Do("link", <<i, j, r>>, <<>>) \/ Do("unlinkmiss", <<i, j, r>>, <<>>)
  \/ \E i \in 1..Len(lists), p \in 1..MaxNodes, x \in 0..1 : Do("unlink", <<i, p, x>>, <<>>) \/ Do("drop", <<i, p, x>>, <<>>)
  \/ \E i, j \in 1..Len(lists) : Do("dropmiss", <<i, j>>, <<>>)
  \/ \E i \in 1..Len(lists) : Do("del", <<i>>, <<>>) \/ Do("keys", <<i>>, <<>>)
  \/ \E i \in 1..Len(lists), k \in 0..MaxNodes : Do("idx", <<i, k>>, <<>>) \/ Do("count", <<i, k>>, <<>>) \/ Do("nextpair", <<i, k>>, <<>>)
  \/ \E i \in 1..Len(lists), k \in KeySet : Do("find", <<i>>, <<k>>)
  \/ \E i \in 1..Len(lists), p \in 1..MaxNodes :
       \/ Do("read", <<i, p>>, <<>>) \/ Do("text", <<i, p>>, <<>>)
       \/ Sets /\ \E c \in 0..1, k \in KeySet : Do("setkey", <<i, p, c>>, <<k>>)
       \/ \E ty \in Tys : Do("wrong", <<i, p, ty>>, <<>>) \/ (Sets /\ Do("set", <<i, p, ty>>, <<Val2(ty)>>))
  \/ lists # <<>> /\ Do("end", <<>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<lists, node>>
AllIds == Flat(lists)
\* no node is in two places, and no list is empty
Once == \A i, j \in 1..Len(AllIds) : AllIds[i] = AllIds[j] => i = j
NonEmpty == \A i \in 1..Len(lists) : lists[i] # <<>>
Holds(n) == HasElem(AllIds, n)
\* a node goes away only by a deletion, and never one that was not handed over for reaping, unless it was deleted by itself
Prop_Reaped == [][\A n \in 1..Len(node) : (Holds(n) /\ last'.op # "end" /\ ~HasElem(Flat(lists'), n)) =>
                   \/ last'.op = "del" /\ (Reap(n) = 1 \/ lists[last'.a[1]][1] = n)
                   \/ last'.op \in {"drop", "unlink"} /\ last'.a[3] = 1 /\ Reap(n) = 1]_vars
\* taking out one node keeps the others together and in order
Prop_Drop == [][last'.op = "drop" => \A i \in 1..Len(lists) : i # last'.a[1] => HasElem(lists', lists[i])]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
