---------------------------- MODULE NumValue ----------------------------
(* The numeric types of the interchange layer, as held by a C3PValue: conversions are exact or refused.  Values are their raw
   storage (four 16-bit limbs, low first, unused high bits zero); FLOAT and DOUBLE are IEEE 754 binary32 and binary64. *)
EXTENDS Util, TLC
VARIABLES t,             \* type code of the value, 0 if there is none
          raw, trace, last
vars == <<t, raw, trace, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]

Unsigned == 1..4
SignedT == 6..9
BOOL == 11
FLT == 12
DBL == 13
Types == Unsigned \cup SignedT \cup {BOOL, FLT, DBL}
Ints == Unsigned \cup SignedT
Width(x) == CASE x \in {1, 6, 11} -> 8 [] x \in {2, 7} -> 16 [] x \in {3, 8, 12} -> 32 [] x \in {4, 9, 13} -> 64 [] OTHER -> 0
Zero == <<0, 0, 0, 0>>

\* ---- bits
Pw == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
BitOf(v, i) == (v[i \div 16 + 1] \div Pw[(i % 16) + 1]) % 2
Limb(f(_), j) == SumSeq([i \in 1..16 |-> f(16 * j + i - 1) * Pw[i]])
FromBits(f(_)) == <<Limb(f, 0), Limb(f, 1), Limb(f, 2), Limb(f, 3)>>
AddOne(v) == IF v[1] < 65535 THEN <<v[1] + 1, v[2], v[3], v[4]>>
             ELSE IF v[2] < 65535 THEN <<0, v[2] + 1, v[3], v[4]>>
             ELSE IF v[3] < 65535 THEN <<0, 0, v[3] + 1, v[4]>> ELSE <<0, 0, 0, (v[4] + 1) % 65536>>
Invert(v) == [i \in 1..4 |-> 65535 - v[i]]
Negate(v) == AddOne(Invert(v))
TopBit(v) == LET RECURSIVE s(_)
                 s(i) == IF i < 0 THEN -1 ELSE IF BitOf(v, i) = 1 THEN i ELSE s(i - 1) IN s(63)

\* ---- integers
IsNeg(x, v) == x \in SignedT /\ BitOf(v, Width(x) - 1) = 1
SignExt(x, v) == IF ~IsNeg(x, v) THEN v ELSE LET f(i) == IF i >= Width(x) THEN 1 ELSE BitOf(v, i) IN FromBits(f)
Fits(neg, e, y) ==       \* may type y hold the number e (64 bits; less 2^64 if neg)?
  LET w == Width(y) IN
  IF y \in Unsigned THEN ~neg /\ \A i \in w..63 : BitOf(e, i) = 0
  ELSE \A i \in (w - 1)..63 : BitOf(e, i) = Bit(neg)
Trunc(e, y) == LET f(i) == IF i < Width(y) THEN BitOf(e, i) ELSE 0 IN FromBits(f)

\* ---- floating point
P(y) == IF y = FLT THEN 24 ELSE 53
Bias(y) == IF y = FLT THEN 127 ELSE 1023
RECURSIVE ShiftBit(_, _)
ShiftBit(n, i) == IF i = 0 THEN n % 2 ELSE ShiftBit(n \div 2, i - 1)
\* the number nearest to an integer (ties to even)
IntToFp(neg, e, y) ==
  LET mag == IF neg THEN Negate(e) ELSE e
      h == TopBit(mag)
      p == P(y)
      m(i) == IF i < 0 THEN 0 ELSE BitOf(mag, i)
      f(i) == IF i < p - 1 THEN m(h - (p - 1) + i) ELSE IF i < Width(y) - 1 THEN ShiftBit(h + Bias(y), i - (p - 1))
              ELSE IF i = Width(y) - 1 THEN Bit(neg) ELSE 0
      up == h - p >= 0 /\ m(h - p) = 1 /\ (m(h - p + 1) = 1 \/ \E i \in 0..(h - p - 1) : m(i) = 1) IN
  IF h < 0 THEN Zero ELSE IF up THEN AddOne(FromBits(f)) ELSE FromBits(f)
IsZeroFp(y, v) == \A i \in 0..(Width(y) - 2) : BitOf(v, i) = 0
\* binary32 to binary64 is exact
FltToDbl(v) ==
  LET e == (v[2] \div 128) % 256
      frac == [i \in 0..22 |-> BitOf(v, i)]
      fh == LET RECURSIVE s(_)
                s(i) == IF i < 0 THEN -1 ELSE IF frac[i] = 1 THEN i ELSE s(i - 1) IN s(22)
      exp == IF e = 255 THEN 2047 ELSE IF e > 0 THEN e - 127 + 1023 ELSE IF fh < 0 THEN 0 ELSE fh - 149 + 1023
      fb(i) ==           \* bit i of the 52 fraction bits
        IF e = 0 THEN (LET k == i - 52 + fh IN IF fh >= 0 /\ k >= 0 THEN frac[k] ELSE 0)
        ELSE IF e = 255 /\ i = 51 /\ fh >= 0 THEN 1
        ELSE IF i >= 29 THEN frac[i - 29] ELSE 0
      f(i) == IF i < 52 THEN fb(i) ELSE IF i < 63 THEN ShiftBit(exp, i - 52) ELSE BitOf(v, 31) IN
  FromBits(f)

\* ---- conversions; how = 0: writing into a value of type y, 1: reading a value as type y
IsTrue(x, v) == IF x \in {FLT, DBL} THEN ~IsZeroFp(x, v) ELSE v # Zero
AsInt(x, v) == IF x = BOOL THEN (IF v = Zero THEN Zero ELSE <<1, 0, 0, 0>>) ELSE SignExt(x, v)
Defined(x, y, how) ==
  CASE x \in Ints \cup {BOOL} /\ y \in Ints \cup {BOOL, DBL} -> TRUE
    [] x = BOOL /\ y = FLT -> TRUE
    [] x \in Ints /\ y = FLT -> Width(x) < 64
    [] x = FLT /\ y \in {FLT, DBL} -> TRUE
    [] x = DBL /\ y = DBL -> TRUE
    [] x \in {FLT, DBL} /\ y = BOOL -> how = 0
    [] OTHER -> FALSE
Accept(x, v, y, how) == Defined(x, y, how) /\ (y \in Ints => Fits(IsNeg(x, v), AsInt(x, v), y))
Convert(x, v, y) ==
  IF x = y THEN v
  ELSE IF y = BOOL THEN <<Bit(IsTrue(x, v)), 0, 0, 0>>
  ELSE IF y \in Ints THEN Trunc(AsInt(x, v), y)
  ELSE IF x = FLT THEN FltToDbl(v)
  ELSE IntToFp(IsNeg(x, v), AsInt(x, v), y)

\* ---- decimal text
DivTen(v) == LET q4 == v[4] \div 10   r4 == v[4] % 10
                 a3 == r4 * 65536 + v[3]   a2 == (a3 % 10) * 65536 + v[2]   a1 == (a2 % 10) * 65536 + v[1] IN
             [q |-> <<a1 \div 10, a2 \div 10, a3 \div 10, q4>>, r |-> a1 % 10]
RECURSIVE Digits(_)
Digits(v) == LET x == DivTen(v) IN (IF x.q = Zero THEN <<>> ELSE Digits(x.q)) \o <<48 + x.r>>
Text(x, v) == IF x = BOOL THEN (IF v = Zero THEN <<102, 97, 108, 115, 101>> ELSE <<116, 114, 117, 101>>)
              ELSE IF IsNeg(x, v) THEN <<45>> \o Digits(Negate(SignExt(x, v))) ELSE Digits(v)

Obs == <<raw, IF t = 0 THEN <<>> ELSE <<t, Width(t) \div 8, trace>>>>
\* a new value, with a number or (c = 0) without
New(x, c, v) == /\ x \in Types
                /\ t' = x /\ raw' = (IF c = 0 THEN Zero ELSE v) /\ trace' = 1 /\ Res("new", <<x, c>>, <<v>>, <<0>>)
\* write from a plain variable, or from another C3PValue (via = 1)
Set(x, via, v) == /\ UNCHANGED t
                  /\ IF Accept(x, v, t, 0)
                     THEN raw' = Convert(x, v, t) /\ trace' = (trace + 1) % 65536 /\ Res("set", <<x, via>>, <<v>>, <<0>>)
                     ELSE UNCHANGED <<raw, trace>> /\ Res("set", <<x, via>>, <<v>>, <<-1>>)
Get(y) == /\ UNCHANGED <<t, raw, trace>>
          /\ Res("get", <<y>>, <<>>, IF Accept(t, raw, y, 1) THEN <<0>> \o Convert(t, raw, y) ELSE <<-1>>)
\* the convenience getters: success flag, and the value (zero if refused); as a boolean everything numeric can be had
GetC(y) == /\ UNCHANGED <<t, raw, trace>>
           /\ LET how == IF y = BOOL THEN 0 ELSE 1 IN
              Res("getc", <<y>>, <<>>, IF Accept(t, raw, y, how) THEN <<1>> \o Convert(t, raw, y) ELSE <<0>> \o Zero)
ToText == /\ UNCHANGED <<t, raw, trace>> /\ t \in Ints \cup {BOOL} /\ Res("text", <<>>, <<>>, Text(t, raw))
\* the announced risk of a conversion: 0 if it cannot fail, otherwise -1 if it is never done, or what must be checked (1 width,
\* 2 sign, 3 both)
Never(x, y) == ~Defined(x, y, 0)
RiskOk(x, y, k) ==
  LET wide == IF x \in SignedT THEN Width(x) - 1 ELSE Width(x)
      room == IF y \in SignedT THEN Width(y) - 1 ELSE Width(y) IN
  CASE Never(x, y) -> k \in {-1, 1}
    [] x \in Ints /\ y \in Ints -> k = (IF x \in SignedT /\ y \in Unsigned THEN (IF wide > room THEN 3 ELSE 2) ELSE IF wide > room THEN 1 ELSE 0)
    [] OTHER -> k \in {0, 1}
Risk(x, y) == /\ UNCHANGED <<t, raw, trace>>
              /\ \E k \in {-1, 0, 1, 2, 3} : RiskOk(x, y, k) /\ Res("risk", <<x, y>>, <<>>, <<k>>)
Dirty(since) == /\ UNCHANGED <<t, raw, trace>>
                /\ Res("dirty", <<since>>, <<>>, <<Bit(since # trace), trace>>)
Do(op, a, d) == CASE op = "new" -> New(a[1], a[2], d[1]) [] op = "set" -> t # 0 /\ Set(a[1], a[2], d[1]) [] op = "get" -> t # 0 /\ Get(a[1])
                  [] op = "getc" -> t # 0 /\ GetC(a[1]) [] op = "text" -> ToText [] op = "risk" -> Risk(a[1], a[2])
                  [] op = "dirty" -> t # 0 /\ Dirty(a[1]) [] OTHER -> FALSE
Init == t = 0 /\ raw = Zero /\ trace = 0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
