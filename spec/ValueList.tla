---------------------------- MODULE ValueList ----------------------------
(* C3PValue and KeyValuePair objects linked into lists: who is linked after whom, who is found by position or key, what each
   holds, and who is destroyed along with whom. *)
EXTENDS Util, TLC
VARIABLES lists,         \* the lists, each a sequence of node numbers
          node,          \* every node ever made: <<kind, key, type, value, owned, reap>>
          last
vars == <<lists, node, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Obs == lists
\* kinds: 0 plain value, 1 pair with a borrowed key, 2 pair with a copied key, 3 pair without key
IsPair(i) == node[i][1] > 0
Keyed(i) == node[i][1] \in {1, 2}
Key(i) == node[i][2]
Reap(i) == node[i][6]
\* types: 1 integer, 2 string, 3 block of bytes, 4 string builder, 5 vector
ByRef(ty) == ty \in {2, 3, 4}

NewNode(kind, ty, own, key, val) ==
  /\ (own = 1 => ByRef(ty) /\ (ty = 2 => kind = 0))
  /\ node' = Append(node, <<kind, key, ty, val, own, 0>>)
  /\ lists' = Append(lists, <<Len(node) + 1>>)
  /\ Res("new", <<kind, ty, own>>, <<key, val>>, <<Len(node) + 1>>)
Link(i, j, reap) ==
  LET m == [lists EXCEPT ![i] = lists[i] \o lists[j]] IN
  /\ i # j /\ lists' = RemoveAtIdx(m, j)
  /\ node' = [node EXCEPT ![lists[j][1]][6] = reap]
  /\ Res("link", <<i, j, reap>>, <<>>, <<lists[j][1]>>)
\* what is left of a chain whose first node is deleted: everything from the first other node that is not to be reaped
Spared(s) == LET live == {k \in 2..Len(s) : Reap(s[k]) = 0} IN
             IF live = {} THEN <<>> ELSE Drop(s, (CHOOSE k \in live : \A x \in live : k <= x) - 1)
Some(s) == IF s = <<>> THEN <<>> ELSE <<s>>
\* cut the chain before the p-th node (p >= 2)
Unlink(i, p, destruct) ==
  LET s == lists[i]  rest == Drop(s, p - 1) IN
  /\ p \in 2..Len(s)
  /\ lists' = [lists EXCEPT ![i] = Take(s, p - 1)] \o (IF destruct = 1 /\ Reap(rest[1]) = 1 THEN Some(Spared(rest)) ELSE <<rest>>)
  /\ UNCHANGED node /\ Res("unlink", <<i, p, destruct>>, <<>>, <<0>>)
\* a node that is not behind the head of list i
UnlinkMiss(i, j, destruct) == /\ (i # j \/ Len(lists[i]) > 0) /\ UNCHANGED <<lists, node>>
                              /\ Res("unlinkmiss", <<i, j, destruct>>, <<>>, <<-1>>)
\* take one node out of its list
DropNode(i, p, destruct) ==
  LET s == lists[i]  rest == RemoveAtIdx(s, p)
      keep == IF rest = <<>> THEN RemoveAtIdx(lists, i) ELSE [lists EXCEPT ![i] = rest] IN
  /\ p \in 1..Len(s)
  /\ lists' = keep \o (IF destruct = 1 /\ Reap(s[p]) = 1 THEN <<>> ELSE <<<<s[p]>>>>)
  /\ UNCHANGED node /\ Res("drop", <<i, p, destruct>>, <<>>, <<0>>)
DropMiss(i, j) == /\ i # j /\ UNCHANGED <<lists, node>> /\ Res("dropmiss", <<i, j>>, <<>>, <<-1>>)
Del(i) == /\ lists' = RemoveAtIdx(lists, i) \o Some(Spared(lists[i])) /\ UNCHANGED node /\ Res("del", <<i>>, <<>>, <<0>>)
SetKey(i, p, copy, key) ==
  LET n == lists[i][p] IN
  /\ IsPair(n) /\ UNCHANGED lists /\ node' = [node EXCEPT ![n][1] = 1 + copy, ![n][2] = key]
  /\ Res("setkey", <<i, p, copy>>, <<key>>, <<0>>)
Set(i, p, ty, val) ==
  LET n == lists[i][p] IN
  /\ node[n][5] = 0 /\ UNCHANGED lists
  /\ IF node[n][3] = ty
     THEN node' = [node EXCEPT ![n][4] = val] /\ Res("set", <<i, p, ty>>, <<val>>, <<0>>)
     ELSE UNCHANGED node /\ Res("set", <<i, p, ty>>, <<val>>, <<-1>>)
Read(i, p) == LET n == node[lists[i][p]] IN
  /\ UNCHANGED <<lists, node>>
  /\ Res("read", <<i, p>>, <<>>, <<n[3], Bit(n[1] > 0), n[6], Len(n[2])>> \o n[2] \o n[4])
\* asking for the wrong type is refused
Wrong(i, p, ty) == LET n == node[lists[i][p]] IN
  /\ n[3] # ty /\ ~(n[3] = 2 /\ ty = 4) /\ UNCHANGED <<lists, node>> /\ Res("wrong", <<i, p, ty>>, <<>>, <<1>>)
Text(i, p) == LET n == node[lists[i][p]] IN
  /\ n[3] \in {2, 4} /\ UNCHANGED <<lists, node>> /\ Res("text", <<i, p>>, <<>>, n[4])
IdxOf(i, k) == /\ UNCHANGED <<lists, node>> /\ Res("idx", <<i, k>>, <<>>, <<IF k < Len(lists[i]) THEN lists[i][k + 1] ELSE 0>>)
Count(i, p) == /\ p \in 1..Len(lists[i]) /\ UNCHANGED <<lists, node>> /\ Res("count", <<i, p>>, <<>>, <<Len(lists[i]) - p + 1>>)
Find(i, key) ==
  LET s == lists[i]  hits == {k \in 1..Len(s) : Keyed(s[k]) /\ Key(s[k]) = key} IN
  /\ IsPair(s[1]) /\ UNCHANGED <<lists, node>>
  /\ Res("find", <<i>>, <<key>>, <<IF hits = {} THEN 0 ELSE s[CHOOSE k \in hits : \A x \in hits : k <= x]>>)
Keys(i) ==
  LET s == SelectSeq(lists[i], LAMBDA n : Keyed(n)) IN
  /\ IsPair(lists[i][1]) /\ UNCHANGED <<lists, node>>
  /\ Res("keys", <<i>>, <<>>, <<Len(s)>> \o Flat([k \in 1..Len(s) |-> Key(s[k])]))
NextPair(i, p) ==
  LET s == lists[i]  later == {k \in (p + 1)..Len(s) : IsPair(s[k])} IN
  /\ IsPair(s[p]) /\ UNCHANGED <<lists, node>>
  /\ Res("nextpair", <<i, p>>, <<>>, <<IF later = {} THEN 0 ELSE s[CHOOSE k \in later : \A x \in later : k <= x]>>)
\* destroy everything: no memory stays behind
End == /\ lists' = <<>> /\ node' = <<>> /\ Res("end", <<>>, <<>>, <<0>>)
L(i) == i \in 1..Len(lists)
N(i, p) == L(i) /\ p \in 1..Len(lists[i])
Do(op, a, d) ==
  CASE op = "new" -> NewNode(a[1], a[2], a[3], d[1], d[2])
    [] op = "link" -> L(a[1]) /\ L(a[2]) /\ Link(a[1], a[2], a[3])
    [] op = "unlink" -> L(a[1]) /\ Unlink(a[1], a[2], a[3])
    [] op = "unlinkmiss" -> L(a[1]) /\ L(a[2]) /\ UnlinkMiss(a[1], a[2], a[3])
    [] op = "drop" -> L(a[1]) /\ DropNode(a[1], a[2], a[3])
    [] op = "dropmiss" -> L(a[1]) /\ L(a[2]) /\ DropMiss(a[1], a[2])
    [] op = "del" -> L(a[1]) /\ Del(a[1])
    [] op = "setkey" -> N(a[1], a[2]) /\ SetKey(a[1], a[2], a[3], d[1])
    [] op = "set" -> N(a[1], a[2]) /\ Set(a[1], a[2], a[3], d[1])
    [] op = "read" -> N(a[1], a[2]) /\ Read(a[1], a[2])
    [] op = "wrong" -> N(a[1], a[2]) /\ Wrong(a[1], a[2], a[3])
    [] op = "text" -> N(a[1], a[2]) /\ Text(a[1], a[2])
    [] op = "idx" -> L(a[1]) /\ IdxOf(a[1], a[2])
    [] op = "count" -> L(a[1]) /\ Count(a[1], a[2])
    [] op = "find" -> L(a[1]) /\ Find(a[1], d[1])
    [] op = "keys" -> L(a[1]) /\ Keys(a[1])
    [] op = "nextpair" -> N(a[1], a[2]) /\ NextPair(a[1], a[2])
    [] op = "end" -> End
    [] OTHER -> FALSE
Init == lists = <<>> /\ node = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
