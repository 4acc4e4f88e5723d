--------------------------- MODULE StateMachine ---------------------------
(* StateMachine<T>: a planned route of states, walked one entry at a time, with a lockout timer between transitions.
   Codes 0..5 are valid states; 6 is listed but flagged invalid; others are not listed. *)
EXTENDS Util, TLC
VARIABLES cap, cur, prior, way, slow, per, age, last
vars == <<cap, cur, prior, way, slow, per, age, last>>
Valid == 0..5
Big == 1073741824
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Remaining == IF per = 0 \/ age >= per THEN 0 ELSE per - age
Planned(x) == Bit(HasElem(way, x))
Obs == <<IF cap < 0 THEN <<>>
         ELSE <<cur, prior, Bit(way = <<>>), IF way = <<>> THEN -1 ELSE way[1], Bit(Remaining > 0), Remaining, slow>>,
         IF cap < 0 THEN <<>> ELSE [x \in 1..6 |-> Planned(x - 1)], IF cap < 0 THEN <<>> ELSE way>>
FIX == <<cap, slow>>
TIM == <<per, age>>

New(c, s, base) == /\ cap' = c /\ cur' = s /\ prior' = s /\ way' = <<>> /\ slow' = 0 /\ per' = 0 /\ age' = 0
                   /\ Res("new", <<c, s, base>>, <<>>, <<0>>)
\* Only as much of the argument list as can fit is looked at; it is taken whole or not at all.
Route(op, xs, room, keep) ==
  /\ UNCHANGED <<cap, cur, prior, slow, TIM>>
  /\ LET ys == Take(xs, room) IN
     IF ys = <<>> THEN UNCHANGED way /\ Res(op, <<>>, <<xs>>, <<-1>>)
     ELSE IF \E i \in 1..Len(ys) : ys[i] \notin Valid THEN UNCHANGED way /\ Res(op, <<>>, <<xs>>, <<-2>>)
     ELSE way' = keep \o ys /\ Res(op, <<>>, <<xs>>, <<0>>)
SetRoute(xs) == Route("set", xs, cap, <<>>)
AppendRoute(xs) == Route("append", xs, cap - Len(way), way)
One(op, x, front) ==
  /\ UNCHANGED <<cap, cur, prior, slow, TIM>>
  /\ IF x \notin Valid THEN UNCHANGED way /\ Res(op, <<x>>, <<>>, <<-1>>)
     ELSE IF Len(way) = cap THEN UNCHANGED way /\ Res(op, <<x>>, <<>>, <<-2>>)
     ELSE way' = (IF front THEN <<x>> \o way ELSE Append(way, x)) /\ Res(op, <<x>>, <<>>, <<0>>)
\* The transition code answers ok (0 or not) and may ask for a lockout of its own (lk >= 0).
\* The result shows which state the transition code was asked for, -1 if it was not consulted.
Advance(ok, lk) ==
  /\ UNCHANGED FIX
  /\ IF way = <<>> THEN UNCHANGED <<cur, prior, way, TIM>> /\ Res("advance", <<ok, lk>>, <<>>, <<-1, -1>>)
     ELSE LET p1 == IF lk >= 0 THEN lk ELSE per
              a1 == IF lk >= 0 THEN 0 ELSE age
              left == IF p1 = 0 \/ a1 >= p1 THEN 0 ELSE p1 - a1
          IN IF ok = 0
             THEN /\ cur' = way[1] /\ prior' = cur /\ way' = Tail(way)
                  /\ IF slow > 0 THEN per' = MaxI(slow, left) /\ age' = 0 ELSE per' = p1 /\ age' = a1
                  /\ Res("advance", <<ok, lk>>, <<>>, <<0, way[1]>>)
             ELSE /\ per' = p1 /\ age' = a1 /\ UNCHANGED <<cur, prior, way>>
                  /\ Res("advance", <<ok, lk>>, <<>>, <<-1, way[1]>>)
Reset(s) == cur' = s /\ prior' = cur /\ way' = <<>> /\ age' = 0 /\ UNCHANGED <<FIX, per>> /\ Res("reset", <<s>>, <<>>, <<0>>)
Mark(s) == cur' = s /\ prior' = cur /\ UNCHANGED <<FIX, way, TIM>> /\ Res("mark", <<s>>, <<>>, <<0>>)
Slow(n) == slow' = n /\ UNCHANGED <<cap, cur, prior, way, TIM>> /\ Res("slow", <<n>>, <<>>, <<0>>)
Lock(n) == per' = n /\ age' = 0 /\ UNCHANGED <<FIX, cur, prior, way>> /\ Res("lock", <<n>>, <<>>, <<0>>)
Wait(n) == age' = MinI(age + n, Big) /\ UNCHANGED <<FIX, cur, prior, way, per>> /\ Res("wait", <<n>>, <<>>, <<0>>)
IsNext(x) == /\ UNCHANGED <<FIX, cur, prior, way, TIM>>
             /\ Res("isnext", <<x>>, <<>>, <<Bit(way # <<>> /\ way[1] = x)>>)

Do(op, a, d) ==
  CASE op = "new" -> New(a[1], a[2], a[3]) [] op = "set" -> SetRoute(d[1]) [] op = "append" -> AppendRoute(d[1])
    [] op = "post" -> One(op, a[1], FALSE) [] op = "pre" -> One(op, a[1], TRUE)
    [] op = "advance" -> Advance(a[1], a[2]) [] op = "reset" -> Reset(a[1]) [] op = "mark" -> Mark(a[1])
    [] op = "slow" -> Slow(a[1]) [] op = "lock" -> Lock(a[1]) [] op = "wait" -> Wait(a[1]) [] op = "isnext" -> IsNext(a[1])
    [] OTHER -> FALSE
Init == /\ cap = -1 /\ cur = 0 /\ prior = 0 /\ way = <<>> /\ slow = 0 /\ per = 0 /\ age = 0
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
