--------------------------- MODULE PriorityQueue ---------------------------
(* PriorityQueue<T*>: highest priority first, FIFO among equals.  q is the service order: <<element, priority>> pairs. *)
EXTENDS Util, TLC
VARIABLES live, q, last
vars == <<live, q, last>>
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
Obs == <<[i \in 1..Len(q) |-> q[i][1]], [i \in 1..Len(q) |-> q[i][2]], <<Len(q)>>>>
HasX(x) == \E i \in 1..Len(q) : q[i][1] = x
PosX(x) == CHOOSE i \in 1..Len(q) : q[i][1] = x /\ \A j \in 1..(i - 1) : q[j][1] # x      \* first one
At(i) == IF i \in 0..(Len(q) - 1) THEN q[i + 1][1] ELSE 0
\* Number of entries served no later than a newcomer of priority p.
Ahead(s, p) == Cardinality({i \in 1..Len(s) : s[i][2] >= p})
Ins(s, x, p) == InsertAtIdx(s, Ahead(s, p) + 1, <<x, p>>)

New == live' = TRUE /\ q' = <<>> /\ Res("new", <<>>, <<0>>)
End == live' = FALSE /\ q' = <<>> /\ Res("end", <<>>, <<0>>)
Insert(x, p) == UNCHANGED live /\ q' = Ins(q, x, p) /\ Res("insert", <<x, p>>, <<Ahead(q, p)>>)
Absent(x, p) == /\ UNCHANGED live
                /\ IF HasX(x) THEN UNCHANGED q /\ Res("absent", <<x, p>>, <<-1>>)
                   ELSE q' = Ins(q, x, p) /\ Res("absent", <<x, p>>, <<Ahead(q, p)>>)
Dequeue == UNCHANGED live /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ Res("dequeue", <<>>, <<At(0)>>)
\* The head goes to the very end, demoted to the priority found there.
Recycle == /\ UNCHANGED live
           /\ q' = (IF Len(q) < 2 THEN q ELSE Append(Tail(q), <<q[1][1], q[Len(q)][2]>>))
           /\ Res("recycle", <<>>, <<At(0)>>)
RemoveAt(i) == /\ UNCHANGED live
               /\ IF i \in 0..(Len(q) - 1) THEN q' = RemoveAtIdx(q, i + 1) /\ Res("removeat", <<i>>, <<1>>)
                  ELSE UNCHANGED q /\ Res("removeat", <<i>>, <<0>>)
RECURSIVE Strip(_, _)
Strip(s, x) == IF s = <<>> THEN s ELSE IF s[1][1] = x THEN Strip(Tail(s), x) ELSE <<s[1]>> \o Strip(Tail(s), x)
RemoveVal(x) == UNCHANGED live /\ q' = Strip(q, x) /\ Res("removeval", <<x>>, <<IF HasX(x) THEN 1 ELSE 0>>)
Clear == UNCHANGED live /\ q' = <<>> /\ Res("clear", <<>>, <<Len(q)>>)
\* A change of priority moves the (first) entry with that element to the boundary of its new class: a raised entry goes
\* behind those already there, a lowered one ahead of them (a stable re-sort).
Bump(op, x, by) ==
  /\ UNCHANGED live
  /\ IF ~HasX(x) THEN UNCHANGED q /\ Res(op, <<x>>, <<0>>)
     ELSE LET i == PosX(x)
              p == q[i][2] + by
              rest == RemoveAtIdx(q, i)
              k == IF by > 0 THEN Ahead(rest, p) ELSE Ahead(rest, p + 1)
          IN q' = InsertAtIdx(rest, k + 1, <<x, p>>) /\ Res(op, <<x>>, <<1>>)
Query(op, a, r) == UNCHANGED <<live, q>> /\ Res(op, a, r)
ByPri(p) == IF \E i \in 1..Len(q) : q[i][2] = p
            THEN q[CHOOSE i \in 1..Len(q) : q[i][2] = p /\ \A j \in 1..(i - 1) : q[j][2] # p][1] ELSE 0

Do(op, a, d) ==
  CASE op = "new" -> New [] op = "end" -> End
    [] op = "insert" -> Insert(a[1], a[2]) [] op = "absent" -> Absent(a[1], a[2])
    [] op = "dequeue" -> Dequeue [] op = "recycle" -> Recycle
    [] op = "removeat" -> RemoveAt(a[1]) [] op = "removeval" -> RemoveVal(a[1]) [] op = "clear" -> Clear
    [] op = "inc" -> Bump(op, a[1], 1) [] op = "dec" -> Bump(op, a[1], -1)
    [] op = "get" -> Query(op, a, <<At(0)>>) [] op = "getat" -> Query(op, a, <<At(a[1])>>)
    [] op = "bypri" -> Query(op, a, <<ByPri(a[1])>>)
    [] op = "pos" -> Query(op, a, <<IF HasX(a[1]) THEN PosX(a[1]) - 1 ELSE -1>>)
    [] op = "prival" -> Query(op, a, <<IF HasX(a[1]) THEN q[PosX(a[1])][2] ELSE -1>>)
    [] op = "pripos" -> Query(op, a, <<IF a[1] \in 0..(Len(q) - 1) THEN q[a[1] + 1][2] ELSE -1>>)
    [] op = "has" -> Query(op, a, <<IF q = <<>> THEN 0 ELSE 1>>)
    [] op = "contains" -> Query(op, a, <<IF HasX(a[1]) THEN 1 ELSE 0>>)
    [] OTHER -> FALSE
Init == live = FALSE /\ q = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
