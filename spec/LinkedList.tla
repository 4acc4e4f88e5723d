---------------------------- MODULE LinkedList ----------------------------
(* LinkedList<T*>: an unbounded ordered list of references.  Elements are non-zero numbers; 0 is "nothing". *)
EXTENDS Util, TLC
VARIABLES live, q, last
vars == <<live, q, last>>
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
Obs == <<q, <<Len(q)>>>>
At(i) == IF i \in 0..(Len(q) - 1) THEN q[i + 1] ELSE 0

New == live' = TRUE /\ q' = <<>> /\ Res("new", <<>>, <<0>>)
End == live' = FALSE /\ q' = <<>> /\ Res("end", <<>>, <<0>>)      \* destruction: every node released
Insert(x) == UNCHANGED live /\ q' = Append(q, x) /\ Res("insert", <<x>>, <<Len(q)>>)
Head_(x) == UNCHANGED live /\ q' = <<x>> \o q /\ Res("head", <<x>>, <<0>>)
Pop == UNCHANGED live /\ q' = (IF q = <<>> THEN q ELSE Tail(q))
       /\ Res("pop", <<>>, <<At(0)>>)
RemoveAt(i) == /\ UNCHANGED live
               /\ q' = IF i \in 0..(Len(q) - 1) THEN RemoveAtIdx(q, i + 1) ELSE q
               /\ Res("removeat", <<i>>, <<At(i)>>)
RemoveVal(x) == UNCHANGED live /\ q' = Without(q, x) /\ Res("removeval", <<x>>, <<IF HasElem(q, x) THEN 1 ELSE 0>>)
Clear == UNCHANGED live /\ q' = <<>> /\ Res("clear", <<>>, <<Len(q)>>)
Query(op, a, r) == UNCHANGED <<live, q>> /\ Res(op, a, r)

Do(op, a, d) ==
  CASE op = "new" -> New [] op = "end" -> End
    [] op = "insert" -> Insert(a[1]) [] op = "head" -> Head_(a[1]) [] op = "pop" -> Pop
    [] op = "removeat" -> RemoveAt(a[1]) [] op = "removeval" -> RemoveVal(a[1]) [] op = "clear" -> Clear
    [] op = "get" -> Query(op, a, <<At(0)>>) [] op = "getat" -> Query(op, a, <<At(a[1])>>)
    [] op = "has" -> Query(op, a, <<IF q = <<>> THEN 0 ELSE 1>>)
    [] op = "contains" -> Query(op, a, <<IF HasElem(q, a[1]) THEN 1 ELSE 0>>)
    [] OTHER -> FALSE
Init == live = FALSE /\ q = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
