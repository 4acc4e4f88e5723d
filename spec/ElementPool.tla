---------------------------- MODULE ElementPool ----------------------------
(* ElementPool<T>: cap preallocated elements plus at most limit outstanding heap elements.  Clients hold elements in
   numbered slots; out[s] is 0 (holds nothing), 1 (an element of the pool) or 2 (a heap element). *)
EXTENDS Util, TLC
VARIABLES live, ready, cap, limit, out, over, freed, low, last
vars == <<live, ready, cap, limit, out, over, freed, low, last>>
Slots == 0..11
Res(op, a, r) == last' = [op |-> op, a |-> a, d |-> <<>>, r |-> r]
Held(k) == Cardinality({s \in Slots : out[s] = k})
Avail == IF ready THEN cap - Held(1) ELSE 0
Obs == <<IF live THEN <<Avail, cap, limit, over, freed, low>> ELSE <<>>>>
None == [s \in Slots |-> 0]

New(c, l, own) == /\ live' = TRUE /\ ready' = FALSE /\ cap' = c /\ limit' = l /\ out' = None
                  /\ over' = 0 /\ freed' = 0 /\ low' = c /\ Res("new", <<c, l, own>>, <<0>>)
End == /\ live' = FALSE /\ ready' = FALSE /\ cap' = 0 /\ limit' = 0 /\ out' = None /\ over' = 0 /\ freed' = 0 /\ low' = 0
       /\ Res("end", <<>>, <<0>>)
Allocate == ready' = TRUE /\ UNCHANGED <<live, cap, limit, out, over, freed, low>> /\ Res("alloc", <<>>, <<1>>)
\* The result says what was obtained and that it is no element anybody else holds.
Take_(s) ==
  /\ ready' = TRUE /\ UNCHANGED <<live, cap, limit, freed>>
  /\ LET free == cap - Held(1) IN
     IF free > 0 THEN /\ out' = [out EXCEPT ![s] = 1] /\ low' = MinI(low, free - 1) /\ UNCHANGED over
                      /\ Res("take", <<s>>, <<1, 1>>)
     ELSE IF over - freed < limit THEN /\ out' = [out EXCEPT ![s] = 2] /\ over' = over + 1 /\ low' = 0
                                       /\ Res("take", <<s>>, <<2, 1>>)
     ELSE UNCHANGED <<out, over>> /\ low' = 0 /\ Res("take", <<s>>, <<0, 1>>)
Give(s) ==
  /\ UNCHANGED <<live, ready, cap, limit, over, low>>
  /\ out' = [out EXCEPT ![s] = 0]
  /\ freed' = IF out[s] = 2 THEN freed + 1 ELSE freed
  /\ Res("give", <<s>>, <<IF out[s] = 1 THEN 1 ELSE 0, 1>>)       \* 1: what the holder wrote in it is still there
SetLimit(n) == limit' = n /\ UNCHANGED <<live, ready, cap, out, over, freed, low>> /\ Res("limit", <<n>>, <<0>>)

Do(op, a, d) ==
  CASE op = "new" -> New(a[1], a[2], a[3]) [] op = "end" -> End [] op = "alloc" -> Allocate
    [] op = "take" -> out[a[1]] = 0 /\ Take_(a[1]) [] op = "give" -> out[a[1]] # 0 /\ Give(a[1])
    [] op = "limit" -> SetLimit(a[1]) [] OTHER -> FALSE
Init == /\ live = FALSE /\ ready = FALSE /\ cap = 0 /\ limit = 0 /\ out = None /\ over = 0 /\ freed = 0 /\ low = 0
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
