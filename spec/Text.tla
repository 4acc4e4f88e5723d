------------------------------- MODULE Text -------------------------------
(* Text as byte sequences: blanks, tokens, numbers. *)
EXTENDS Util
Piece(s) == IF s = <<>> THEN <<>> ELSE <<s>>
RECURSIVE Tok(_, _, _)
Tok(s, ds, cur) == IF s = <<>> THEN Piece(cur)
                   ELSE IF HasElem(ds, Head(s)) THEN Piece(cur) \o Tok(Tail(s), ds, <<>>)
                   ELSE Tok(Tail(s), ds, Append(cur, Head(s)))
Digits(n) == LET RECURSIVE D(_)
                 D(k) == IF k < 10 THEN <<48 + k>> ELSE Append(D(k \div 10), 48 + (k % 10)) IN D(n)
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
Zeros(n) == [i \in 1..n |-> 48]
IsSpace(b) == b = 32 \/ b \in 9..13
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
IsDigit(b) == b \in 48..57
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
\* the longest prefix of s satisfying P
RECURSIVE DigitPrefix(_)
DigitPrefix(s) == IF s # <<>> /\ IsDigit(Head(s)) THEN <<Head(s)>> \o DigitPrefix(Tail(s)) ELSE <<>>
RECURSIVE HexPrefix(_)
HexPrefix(s) == IF s # <<>> /\ HexVal(Head(s)) >= 0 THEN <<Head(s)>> \o HexPrefix(Tail(s)) ELSE <<>>
DecValue(s) == LET RECURSIVE V(_)
                   V(k) == IF k = 0 THEN 0 ELSE 10 * V(k - 1) + (s[k] - 48) IN V(Len(s))
\* value of hex digits as 16-bit limbs, low first (n limbs)
HexLimbs(s, n) == [j \in 1..n |-> LET dig(k) == IF Len(s) - k >= 1 THEN HexVal(s[Len(s) - k]) ELSE 0
                                  IN dig(4*(j-1)) + 16 * dig(4*(j-1)+1) + 256 * dig(4*(j-1)+2) + 4096 * dig(4*(j-1)+3)]
IsHexTok(s) == Len(s) > 2 /\ s[1] = 48 /\ s[2] = 120
Atoi(s) == LET z == LTrim(s)
               neg == z # <<>> /\ Head(z) = 45
               y == IF z # <<>> /\ Head(z) \in {43, 45} THEN Tail(z) ELSE z
               v == DecValue(DigitPrefix(y)) IN IF neg THEN -v ELSE v
============================================================================
