------------------------------- MODULE Util -------------------------------
(* Helpers shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets

MinI(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x > y THEN x ELSE y
Bit(b) == IF b THEN 1 ELSE 0
HasElem(s, x) == \E i \in 1..Len(s) : s[i] = x
Take(s, n) == SubSeq(s, 1, MinI(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RemoveAtIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAtIdx(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* first index holding x, or 0
IndexOf(s, x) == IF HasElem(s, x) THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x ELSE 0
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
SumSeq(s) == LET RECURSIVE f(_)
                 f(i) == IF i = 0 THEN 0 ELSE s[i] + f(i - 1) IN f(Len(s))
===========================================================================
