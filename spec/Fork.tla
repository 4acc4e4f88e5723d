------------------------------- MODULE Fork -------------------------------
(* BufferAccepterFork between a caller, who keeps and re-offers what was not claimed, and two accepters downstream.  Each
   downstream side announces `room` and claims at most `burst` bytes of one offer (an accepter may claim less than it has room for,
   e.g. because it works in chunks).  How the fork splits an offer is its own affair; what both sides get is not. *)
EXTENDS Util, TLC
VARIABLES have,          \* which sides are connected (left, right)
          buf,           \* the caller's unclaimed bytes
          room, burst,   \* of each side
          ahead,         \* bytes at the front of buf which that side has already received
          got,           \* what each side received during the last call
          last
vars == <<have, buf, room, burst, ahead, got, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Sides == {i \in 1..2 : have[i] = 1}
Avail == IF Sides = {} THEN 0 ELSE IF Sides = {1} THEN room[1] ELSE IF Sides = {2} THEN room[2] ELSE MinI(room[1], room[2])
Obs == <<buf, got[1], got[2], IF have[1] < 0 THEN <<>> ELSE <<room[1], room[2], Avail>>>>
Quiet == got' = <<<<>>, <<>>>>
New(l, r) == have' = <<l, r>> /\ buf' = <<>> /\ room' = <<0, 0>> /\ burst' = <<0, 0>> /\ ahead' = <<0, 0>> /\ Quiet /\ Res("new", <<l, r>>, <<>>, <<0>>)
Feed(b) == buf' = buf \o b /\ UNCHANGED <<have, room, burst, ahead>> /\ Quiet /\ Res("feed", <<>>, <<b>>, <<0>>)
Room(i, n, m) == /\ room' = [room EXCEPT ![i] = n] /\ burst' = [burst EXCEPT ![i] = m]
                 /\ UNCHANGED <<have, buf, ahead>> /\ Quiet /\ Res("room", <<i, n, m>>, <<>>, <<0>>)
\* a new accepter is connected on side i
Swap(i) == /\ ahead' = [ahead EXCEPT ![i] = 0] /\ room' = [room EXCEPT ![i] = 0] /\ burst' = [burst EXCEPT ![i] = 0]
           /\ have' = [have EXCEPT ![i] = 1] /\ UNCHANGED buf /\ Quiet /\ Res("swap", <<i>>, <<>>, <<0>>)
CanTake(i) == IF i \in Sides THEN MinI(MinI(room[i], burst[i]), Len(buf) - ahead[i]) ELSE 0
Push == \E l \in 0..CanTake(1), r \in 0..CanTake(2) :
  LET take == <<l, r>>
      cov(i) == ahead[i] + take[i]
      total == IF Sides = {} THEN 0 ELSE IF Sides = {1} THEN cov(1) ELSE IF Sides = {2} THEN cov(2) ELSE MinI(cov(1), cov(2)) IN
  /\ (Sides # {} /\ buf # <<>> /\ \A i \in Sides : room[i] > 0 /\ burst[i] > 0) => total > 0
  /\ got' = [i \in 1..2 |-> SubSeq(buf, ahead[i] + 1, cov(i))]
  /\ room' = [i \in 1..2 |-> room[i] - take[i]]
  /\ ahead' = [i \in 1..2 |-> IF i \in Sides THEN cov(i) - total ELSE 0]
  /\ buf' = Drop(buf, total)
  /\ UNCHANGED <<have, burst>>
  /\ Res("push", <<>>, <<>>, <<IF total = 0 THEN -1 ELSE IF total = Len(buf) THEN 1 ELSE 0>>)
Do(op, a, d) == CASE op = "new" -> New(a[1], a[2]) [] op = "feed" -> Feed(d[1]) [] op = "room" -> Room(a[1], a[2], a[3])
                  [] op = "swap" -> Swap(a[1]) [] op = "push" -> Push [] OTHER -> FALSE
Init == /\ have = <<-1, -1>> /\ buf = <<>> /\ room = <<0, 0>> /\ burst = <<0, 0>> /\ ahead = <<0, 0>> /\ got = <<<<>>, <<>>>>
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
