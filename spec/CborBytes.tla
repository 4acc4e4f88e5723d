----------------------------- MODULE CborBytes -----------------------------
(* RFC 8949 heads: the initial byte of an item with the argument that follows it, and the shortest encoding of a head. *)
EXTENDS Util, TLC
Zero4 == <<0, 0, 0, 0>>
ArgLen(minor) == IF minor < 24 THEN 0 ELSE IF minor = 24 THEN 1 ELSE IF minor = 25 THEN 2 ELSE IF minor = 26 THEN 4 ELSE IF minor = 27 THEN 8 ELSE -1
\* the argument in n big-endian bytes of b from index i, as four 16-bit limbs, low first
B16(b, i) == 256 * b[i] + b[i + 1]
ArgAt(b, i, n) == CASE n = 1 -> <<b[i], 0, 0, 0>>
                    [] n = 2 -> <<B16(b, i), 0, 0, 0>>
                    [] n = 4 -> <<B16(b, i + 2), B16(b, i), 0, 0>>
                    [] n = 8 -> <<B16(b, i + 6), B16(b, i + 4), B16(b, i + 2), B16(b, i)>>
\* the head at index i: st is "more" if it is not complete, "bad" if the additional information is reserved
HeadAt(b, i) ==
  IF i > Len(b) THEN [st |-> "more"]
  ELSE LET major == b[i] \div 32   minor == b[i] % 32   n == ArgLen(minor) IN
       IF n < 0 THEN [st |-> "bad", major |-> major, minor |-> minor]
       ELSE IF i + n > Len(b) THEN [st |-> "more"]
       ELSE [st |-> "ok", major |-> major, minor |-> minor, arg |-> IF n = 0 THEN <<minor, 0, 0, 0>> ELSE ArgAt(b, i + 1, n), next |-> i + 1 + n]
Small(v) == v[2] < 16384 /\ v[3] = 0 /\ v[4] = 0          \* less than 2^30: a number TLC can hold
Num(v) == v[1] + 65536 * v[2]
Below31(v) == v[2] < 32768 /\ v[3] = 0 /\ v[4] = 0
\* text ends at its first NUL
CText(s) == LET z == {k \in 1..Len(s) : s[k] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in z : \A x \in z : k <= x) - 1)
Hi(x) == x \div 256
Lo(x) == x % 256
\* shortest head
EncHead(major, v) ==
  LET m == 32 * major IN
  IF v[4] # 0 \/ v[3] # 0 THEN <<m + 27, Hi(v[4]), Lo(v[4]), Hi(v[3]), Lo(v[3]), Hi(v[2]), Lo(v[2]), Hi(v[1]), Lo(v[1])>>
  ELSE IF v[2] # 0 THEN <<m + 26, Hi(v[2]), Lo(v[2]), Hi(v[1]), Lo(v[1])>>
  ELSE IF v[1] > 255 THEN <<m + 25, Hi(v[1]), Lo(v[1])>>
  ELSE IF v[1] > 23 THEN <<m + 24, v[1]>> ELSE <<m + v[1]>>
LenLimbs(n) == <<n % 65536, n \div 65536, 0, 0>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
===========================================================================
