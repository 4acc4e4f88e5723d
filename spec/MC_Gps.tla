---- MODULE MC_Gps ----
(* The texts are: a position with its date, a speed, a fix whose checksum is wrong, and a speed that has none. *)
EXTENDS Gps, Json
CONSTANTS Texts, Cuts, MaxPieces
Text == << <<36, 71, 80, 82, 77, 67, 44, 48, 56, 49, 56, 51, 54, 44, 65, 44, 51, 55, 53, 49, 46, 54, 53, 44, 83, 44, 49, 52, 53, 48, 55, 46, 51, 54, 44, 69, 44, 48, 48, 48, 46, 48, 44, 51, 54, 48, 46, 48, 44, 49, 51, 48, 57, 57, 56, 44, 48, 49, 49, 46, 51, 44, 69, 42, 54, 50, 13, 10>>,
  <<36, 71, 80, 86, 84, 71, 44, 48, 53, 52, 46, 55, 44, 84, 44, 48, 51, 52, 46, 52, 44, 77, 44, 48, 48, 53, 46, 53, 44, 78, 44, 48, 49, 48, 46, 50, 44, 75, 42, 52, 56, 13, 10>>,
  <<36, 71, 80, 71, 71, 65, 44, 49, 50, 51, 53, 49, 57, 44, 52, 56, 48, 55, 46, 48, 51, 56, 44, 78, 44, 48, 49, 49, 51, 49, 46, 48, 48, 48, 44, 69, 44, 49, 44, 48, 56, 44, 48, 46, 57, 44, 53, 52, 53, 46, 52, 44, 77, 44, 52, 54, 46, 57, 44, 77, 44, 44, 42, 52, 48, 10>>,
  <<36, 71, 80, 86, 84, 71, 44, 49, 44, 84, 44, 50, 44, 77, 44, 51, 44, 78, 44, 52, 44, 75, 13, 10>> >>
VARIABLE hist            \* all that was pushed
Pieces == {SubSeq(Text[i], 1, Len(Text[i]) \div c) : i \in Texts, c \in Cuts} \cup {SubSeq(Text[i], (Len(Text[i]) \div c) + 1, Len(Text[i])) : i \in Texts, c \in Cuts \ {1}}
VARIABLE n
MCNext == /\ n <= MaxPieces /\ n' = n + 1
          /\ IF n = 0 THEN hist' = <<>> /\ \E c \in {0, 1} : Do("new", <<c>>, <<>>)
             ELSE \E d \in Pieces : Do("push", <<>>, <<d>>) /\ hist' = hist \o d
Fresh == acc = <<>> /\ good = 0 /\ bad = 0 /\ calls = 0 /\ fr = Frame0 /\ cbf = Frame0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
MCInit == Fresh /\ hasCb = 0 /\ hist = <<>> /\ n = 0
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, n>>
View == <<acc, good, bad, calls, fr, cbf, hasCb, n, hist>>
Dumped == <<acc, good, bad, calls, fr, cbf, hasCb, n>>
\* however the text was cut into pieces: what is held is the end of it, and what came before was dealt with line by line, once
Inv_Pieces ==
  LET k == Len(hist) - Len(acc)
      ls == Lines(SubSeq(hist, 1, k))
      x == Run(ls, [good |-> 0, bad |-> 0, calls |-> 0, fr |-> Frame0, cbf |-> Frame0, told |-> <<>>], <<>>) IN
  Len(hist) <= HELD => /\ SubSeq(hist, k + 1, Len(hist)) = acc /\ x.good = good /\ x.bad = bad /\ x.calls = calls /\ x.fr = fr /\ x.cbf = cbf
                       /\ (k > 0 => hist[k] = 10)
Inv_Held == Len(acc) <= HELD /\ good + bad <= Cardinality({i \in 1..Len(hist) : hist[i] = 10})
\* no single damaged character of a sentence with a checksum goes unnoticed, unless it cuts the text short
ASSUME \A i \in {1, 2}, e \in {1, 4, 16} : LET s == SubSeq(Text[i], 1, Len(Text[i]) - 2) IN
         /\ Sound(s) /\ \A p \in 1..Len(s) : LET c == IF (s[p] \div e) % 2 = 1 THEN s[p] - e ELSE s[p] + e IN
                                              Sound([s EXCEPT ![p] = c]) => p = Len(s) - 1 \/ p = Len(s) \/ c = 13
\* days follow one another through leap years, months and years that roll over
ASSUME \A y \in 0..37, m \in 1..12 : LET k == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF y % 4 = 0 THEN 29 ELSE 28) ELSE 31 IN
         /\ Date(<<y, m + 1, 1>>, 0)[1] = Date(<<y, m, 1>>, 0)[1] + k /\ Date(<<y, m, k + 1>>, 0) = Date(<<y, m + 1, 1>>, 0) /\ Date(<<y, m, 1>>, 86400) = Date(<<y, m, 2>>, 0)
ASSUME Date(<<0, 1, 1>>, 0) = <<10957, 0>> /\ Date(<<38, 1, 19>>, 11647) = <<24855, 11647>> /\ Date(<<38, 1, 19>>, 11648) = <<>>
Dump == PrintT(<<"@E", ToJson(Dumped), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<acc', good', bad', calls', fr', cbf', hasCb', n'>>)>>)
====
