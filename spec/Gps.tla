-------------------------------- MODULE Gps --------------------------------
(* A sink for the text of a satellite receiver (NMEA 0183): sentences, the frame of what they told, and who is called about it. *)
EXTENDS Util, TLC
VARIABLES acc,               \* text that is not yet dealt with
          good, bad, calls,  \* sentences parsed, rejected; callbacks made
          fr, cbf,           \* the frame, and a copy of it from the last callback
          hasCb, last
vars == <<acc, good, bad, calls, fr, cbf, hasCb, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
LINE == 140
HELD == 1024
\* a number is known (1), unknown (0), or beyond what is observed (2)
Frame0 == [lat |-> <<1, 0>>, lon |-> <<1, 0>>, dh |-> <<1, 0>>, dv |-> <<1, 0>>, at |-> <<0, 0>>, mag |-> <<1, 0>>, alt |-> <<1, 0>>, speed |-> <<1, 0>>, sats |-> 0]
Obs == <<<<good, bad, calls, HELD - Len(acc)>>>>

\* ---- text
Printable(c) == c >= 32 /\ c <= 126
Digit(c) == c >= 48 /\ c <= 57
Hex(c) == CASE Digit(c) -> c - 48 [] c >= 65 /\ c <= 70 -> c - 55 [] c >= 97 /\ c <= 102 -> c - 87 [] OTHER -> -1
FirstIn(s, i, P(_)) == IF \E j \in i..Len(s) : P(s[j]) THEN CHOOSE j \in i..Len(s) : P(s[j]) /\ \A k \in i..(j - 1) : ~P(s[k]) ELSE MaxI(i, Len(s) + 1)
RECURSIVE Parts(_, _)
Parts(s, c) == LET k == FirstIn(s, 1, LAMBDA x : x = c) IN IF k > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Parts(SubSeq(s, k + 1, Len(s)), c)
XorAll(s) == LET bit(k) == Cardinality({i \in 1..Len(s) : (s[i] \div k) % 2 = 1}) % 2 IN
             bit(1) + (2 * bit(2)) + (4 * bit(4)) + (8 * bit(8)) + (16 * bit(16)) + (32 * bit(32)) + (64 * bit(64)) + (128 * bit(128))
EndOf(s) == FirstIn(s, 2, LAMBDA x : ~Printable(x) \/ x = 42)     \* where the fields end
\* of a proper length, begun by $, all printable, and closed by the right checksum or the end of a line
Sound(s) ==
  /\ s # <<>> /\ Len(s) <= LINE + 3 /\ s[1] = 36
  /\ LET k == EndOf(s) IN
     k <= Len(s) /\ (IF s[k] = 42 THEN /\ k + 2 <= Len(s) /\ Hex(s[k + 1]) >= 0 /\ Hex(s[k + 2]) >= 0
                                        /\ XorAll(SubSeq(s, 2, k - 1)) = (16 * Hex(s[k + 1])) + Hex(s[k + 2])
                     ELSE s[k] = 13)

\* ---- fields
No == [ok |-> FALSE, v |-> 0, s |-> 0]
\* a decimal fraction v/s; s is 0 when there is none. What no longer fits is cut from the fraction, and refused of a whole number.
RECURSIVE Frac(_, _, _, _, _)
Frac(x, i, sg, v, s) ==
  LET Fin == IF (sg # 0 \/ s # 0) /\ v = -1 THEN No
             ELSE [ok |-> TRUE, v |-> (IF v = -1 THEN 0 ELSE IF sg = -1 THEN -v ELSE v), s |-> (IF v = -1 THEN 0 ELSE IF s = 0 THEN 1 ELSE s)] IN
  IF i > Len(x) THEN Fin
  ELSE LET c == x[i] IN
    CASE c = 43 /\ sg = 0 /\ v = -1 -> Frac(x, i + 1, 1, v, s)
      [] c = 45 /\ sg = 0 /\ v = -1 -> Frac(x, i + 1, -1, v, s)
      [] Digit(c) -> LET v0 == MaxI(v, 0) dg == c - 48 IN
                     IF v0 > (2147483647 - dg) \div 10 \/ s > 100000000 THEN (IF s # 0 THEN [ok |-> TRUE, v |-> (IF sg = -1 THEN -v0 ELSE v0), s |-> s] ELSE No)
                     ELSE Frac(x, i + 1, sg, (10 * v0) + dg, 10 * s)
      [] c = 46 /\ s = 0 -> Frac(x, i + 1, sg, v, 1)
      [] c = 32 /\ sg = 0 /\ v = -1 /\ s = 0 -> Frac(x, i + 1, sg, v, s)
      [] OTHER -> No
RECURSIVE Dec(_, _, _)
Dec(x, i, v) == IF i > Len(x) THEN v ELSE Dec(x, i + 1, IF v > 214748363 THEN 2147483647 ELSE (10 * v) + (x[i] - 48))
Whole(x) ==
  IF x = <<>> THEN [ok |-> TRUE, v |-> 0, s |-> 1]
  ELSE LET k == FirstIn(x, 1, LAMBDA c : c # 32)
           m == IF k <= Len(x) /\ x[k] \in {43, 45} THEN k + 1 ELSE k
           dg == SubSeq(x, m, Len(x)) IN
       IF dg = <<>> \/ \E i \in 1..Len(dg) : ~Digit(dg[i]) THEN No
       ELSE [ok |-> TRUE, v |-> (IF m > k /\ x[k] = 45 THEN -Dec(dg, 1, 0) ELSE Dec(dg, 1, 0)), s |-> 1]
Six(x) == Len(x) >= 6 /\ \A i \in 1..6 : Digit(x[i])
Two(x, i) == (10 * (x[i] - 48)) + (x[i + 1] - 48)
\* the field x, read as f: c a letter, d a direction, n a fraction, i a whole number, T time, D date, x anything
Read(f, x) ==
  CASE f = "c" -> [ok |-> TRUE, v |-> (IF x = <<>> THEN 0 ELSE x[1]), s |-> 1]
    [] f = "d" -> IF x = <<>> THEN [ok |-> TRUE, v |-> 0, s |-> 1]
                  ELSE IF x[1] \in {78, 69} THEN [ok |-> TRUE, v |-> 1, s |-> 1] ELSE IF x[1] \in {83, 87} THEN [ok |-> TRUE, v |-> -1, s |-> 1] ELSE No
    [] f = "n" -> Frac(x, 1, 0, -1, 0)
    [] f = "i" -> Whole(x)
    [] f = "T" -> IF x = <<>> THEN [ok |-> TRUE, v |-> 0, s |-> 0] ELSE IF ~Six(x) THEN No
                  ELSE [ok |-> TRUE, v |-> (3600 * Two(x, 1)) + (60 * Two(x, 3)) + Two(x, 5), s |-> 1]
    [] f = "D" -> IF x = <<>> THEN [ok |-> TRUE, v |-> <<0, 0, 0>>, s |-> 0] ELSE IF ~Six(x) THEN No ELSE [ok |-> TRUE, v |-> <<Two(x, 5), Two(x, 3), Two(x, 1)>>, s |-> 1]
    [] OTHER -> [ok |-> TRUE, v |-> 0, s |-> 1]
\* the fields of each kind of sentence, and how many are mandatory
I16 == [i \in 1..16 |-> "i"]
Kind(t) ==
  CASE t = <<82, 77, 67>> -> [k |-> "RMC", f |-> <<"T", "c", "n", "d", "n", "d", "n", "n", "D", "n", "d">>, m |-> 11]
    [] t = <<71, 71, 65>> -> [k |-> "GGA", f |-> <<"T", "n", "d", "n", "d", "i", "i", "n", "n", "c", "n", "c", "i", "x">>, m |-> 14]
    [] t = <<71, 83, 65>> -> [k |-> "GSA", f |-> <<"c">> \o SubSeq(I16, 1, 13) \o <<"n", "n", "n">>, m |-> 17]
    [] t = <<71, 76, 76>> -> [k |-> "GLL", f |-> <<"n", "d", "n", "d", "T", "c", "c">>, m |-> 6]
    [] t = <<71, 83, 84>> -> [k |-> "GST", f |-> <<"T", "n", "n", "n", "n", "n", "n", "n">>, m |-> 8]
    [] t = <<71, 83, 86>> -> [k |-> "GSV", f |-> <<"i", "i", "i">> \o I16, m |-> 3]
    [] t = <<86, 84, 71>> -> [k |-> "VTG", f |-> <<"n", "c", "n", "c", "n", "c", "n", "c", "c">>, m |-> 8]
    [] OTHER -> [k |-> "", f |-> <<>>, m |-> 0]

\* ---- quantities
\* v/s in parts of one over u (a power of ten); 2: out of sight
Scaled(q, u, lim) == LET a == IF q.v < 0 THEN -q.v ELSE q.v
                         w == a \div q.s
                         r == IF q.s <= u THEN (a % q.s) * (u \div q.s) ELSE (a % q.s) \div (q.s \div u) IN
                     IF q.s = 0 THEN <<0>> ELSE IF w >= lim THEN <<2>> ELSE <<1, (IF q.v < 0 THEN -1 ELSE 1) * ((w * u) + r)>>
Speed(x) == IF x[1] # 1 THEN x ELSE <<1, LET w == IF x[2] < 0 THEN -x[2] ELSE x[2] IN (IF x[2] < 0 THEN -1 ELSE 1) * (((w \div 36) * 10) + (((w % 36) * 10) \div 36))>>
\* degrees and minutes (dddmm.mmm) in 1/10000 degree
Coord(q, dir) ==
  IF q.s = 0 THEN <<0>>
  ELSE LET a == IF q.v < 0 THEN -q.v ELSE q.v
           w == a \div q.s                      \* dddmm
           m3 == ((w % 100) * 1000) + (IF q.s <= 1000 THEN (a % q.s) * (1000 \div q.s) ELSE (a % q.s) \div (q.s \div 1000)) IN
       IF dir = 0 THEN <<1, 0>> ELSE IF w >= 50000 \/ ((w \div 100) * 10000) + (m3 \div 6) >= 4000000 THEN <<2>>
       ELSE <<1, dir * (IF q.v < 0 THEN -1 ELSE 1) * (((w \div 100) * 10000) + (m3 \div 6))>>
\* days since 1970 of the first of a month
Era(y, m) == LET yy == IF m <= 2 THEN y - 1 ELSE y
                 mm == (m + 9) % 12 IN
             (365 * yy) + (yy \div 4) - (yy \div 100) + (yy \div 400) + (((153 * mm) + 2) \div 5) - 719468
\* month and day may lie outside the calendar and roll over, as may the time; what exceeds the clock is not taken
Date(d, t) == LET y == 2000 + d[1] + ((d[2] - 1) \div 12)
                  days == Era(y, ((d[2] - 1) % 12) + 1) + d[3] - 1 + (t \div 86400)
                  s == t % 86400 IN
              IF days > 24855 \/ (days = 24855 /\ s > 11647) THEN <<>> ELSE <<days, s>>

\* what a sentence does to the frame; <<>> when it is rejected
Parse(s, f) ==
  IF ~Sound(s) THEN <<>>
  ELSE LET F == Parts(SubSeq(s, 1, EndOf(s) - 1), 44)
           K == Kind(SubSeq(F[1], 4, 6)) IN
       IF Len(F[1]) < 6 \/ K.k = "" \/ Len(F) - 1 < K.m THEN <<>>
       ELSE LET n == MinI(Len(F) - 1, Len(K.f))
                q == [i \in 1..n |-> Read(K.f[i], F[i + 1])] IN
            IF \E i \in 1..n : ~q[i].ok THEN <<>>
            ELSE CASE K.k = "GSA" -> <<[f EXCEPT !.dh = Scaled(q[16], 100, 1000), !.dv = Scaled(q[17], 100, 1000)]>>
                   [] K.k = "RMC" -> LET d == IF q[1].s = 0 \/ q[9].s = 0 THEN <<>> ELSE Date(q[9].v, q[1].v) IN
                                     <<[f EXCEPT !.lat = Coord(q[3], q[4].v), !.lon = Coord(q[5], q[6].v), !.at = (IF d = <<>> THEN f.at ELSE d)]>>
                   [] K.k = "GGA" -> <<[f EXCEPT !.sats = q[7].v % 256, !.alt = (IF q[10].v = 77 /\ q[9].s # 0 THEN Scaled(q[9], 1000, 2000000) ELSE f.alt)]>>
                   [] K.k = "VTG" -> IF q[2].v # 84 \/ q[4].v # 77 \/ q[6].v # 78 \/ q[8].v # 75 THEN <<>>
                                     ELSE <<[f EXCEPT !.mag = Scaled(q[3], 100, 1000), !.speed = (IF q[7].s # 0 THEN Speed(Scaled(q[7], 1000, 200000)) ELSE f.speed)]>>
                   [] OTHER -> <<f>>
IsVtg(s) == Len(s) >= 6 /\ SubSeq(s, 4, 6) = <<86, 84, 71>>

\* ---- the sink
\* the lines are dealt with one after the other
RECURSIVE Run(_, _, _)
Run(ls, x, told) ==
  IF ls = <<>> THEN [x EXCEPT !.told = told]
  ELSE LET p == Parse(Head(ls), x.fr) IN
       IF p = <<>> THEN Run(Tail(ls), [x EXCEPT !.bad = @ + 1], told)
       ELSE LET y == [x EXCEPT !.good = @ + 1, !.fr = p[1]] IN
            IF hasCb = 1 /\ IsVtg(Head(ls)) THEN Run(Tail(ls), [y EXCEPT !.calls = @ + 1, !.cbf = p[1]], told \o <<p[1].sats, p[1].at[2]>>)
            ELSE Run(Tail(ls), y, told)
Lines(s) == SelectSeq(Parts(s, 10), LAMBDA x : x # <<>>)
Tail1024(s) == IF Len(s) > HELD THEN SubSeq(s, Len(s) - HELD + 1, Len(s)) ELSE s
Same == UNCHANGED <<good, bad, calls, fr, cbf>>
\* more text than one sentence holds is dealt with, save a last line that has not ended
Push(d) ==
  LET t == acc \o d
      ls == Lines(t)
      open == IF t = <<>> \/ t[Len(t)] = 10 THEN 0 ELSE 1 IN
  /\ UNCHANGED hasCb
  /\ IF \E i \in 1..Len(d) : d[i] = 0 THEN UNCHANGED acc /\ Same /\ Res("push", <<>>, <<d>>, <<-99>>)
     ELSE IF Len(t) <= LINE \/ ls = <<>> THEN acc' = Tail1024(t) /\ Same /\ Res("push", <<>>, <<d>>, <<1>>)
     ELSE LET x == Run(SubSeq(ls, 1, Len(ls) - open), [good |-> good, bad |-> bad, calls |-> calls, fr |-> fr, cbf |-> cbf, told |-> <<>>], <<>>) IN
          /\ acc' = (IF open = 1 THEN Tail1024(ls[Len(ls)]) ELSE <<>>)
          /\ good' = x.good /\ bad' = x.bad /\ calls' = x.calls /\ fr' = x.fr /\ cbf' = x.cbf
          /\ Res("push", <<>>, <<d>>, <<1>> \o x.told)
\* one quantity of the frame (0) or of that of the last callback (1); those of binary fractions to the nearest unit, either way
Near(x) == IF x[1] # 1 THEN {x} ELSE {<<1, x[2] + e>> : e \in {-1, 0, 1}}
\* an altitude or a speed that is beyond what its field holds is anything
Unseen == {<<1, 0>>}
Fits(x) == IF x[1] = 1 THEN Near(x) ELSE Unseen
Look(w, q) ==
  LET f == IF w = 1 THEN cbf ELSE fr IN
  /\ UNCHANGED <<acc, hasCb>> /\ Same
  /\ \E r \in (CASE q = 1 -> Near(f.lat) [] q = 2 -> Near(f.lon) [] q = 3 -> Near(f.dh) [] q = 4 -> Near(f.dv) [] q = 5 -> {f.at}
                 [] q = 6 -> Near(f.mag) [] q = 7 -> Fits(f.alt) [] q = 8 -> Fits(f.speed) [] OTHER -> {<<f.sats>>}) : Res("look", <<w, q>>, <<>>, r)
\* the distance of two points on one meridian, on the equator, on opposite meridians, or on meridians at right angles with one on the equator; in meters, of 1/100 degree
Dist(m, a, b) == LET x == IF a > b THEN a - b ELSE b - a
                     y == CASE m = 0 -> x [] m = 1 -> (IF x > 18000 THEN 36000 - x ELSE x)
                            [] m = 2 -> (IF a + b >= 0 THEN 18000 - (a + b) ELSE 18000 + a + b)      \* on opposite meridians: over the nearer pole
                            [] OTHER -> 9000                                                          \* a quarter of the way around, to the equator
                     e == (y * 1111) + ((y * 95) \div 100) IN    \* 1111.9509 to a hundredth of a degree
                 UNCHANGED <<acc, hasCb>> /\ Same /\ \E z \in -18..18 : Res("dist", <<m, a, b>>, <<>>, <<e + z>>)
InitG == acc' = <<>> /\ Same /\ UNCHANGED hasCb /\ Res("init", <<>>, <<>>, <<0>>)
New(c) == acc' = <<>> /\ good' = 0 /\ bad' = 0 /\ calls' = 0 /\ fr' = Frame0 /\ cbf' = Frame0 /\ hasCb' = c /\ Res("new", <<c>>, <<>>, <<0>>)
Do(op, a, d) ==
  CASE op = "new" -> New(a[1]) [] op = "init" -> InitG [] op = "push" -> Push(d[1]) [] op = "look" -> Look(a[1], a[2]) [] op = "dist" -> Dist(a[1], a[2], a[3])
    [] op = "print" -> UNCHANGED <<acc, hasCb>> /\ Same /\ Res("print", <<>>, <<>>, <<0>>) [] OTHER -> FALSE
Init == acc = <<>> /\ good = 0 /\ bad = 0 /\ calls = 0 /\ fr = Frame0 /\ cbf = Frame0 /\ hasCb = 0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
