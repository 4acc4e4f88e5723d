------------------------------ MODULE Ident ------------------------------
(* UUIDs and identities: their text, their storage form, their generation.
   Three UUID registers, two places for an identity, and the storage (what was serialized last). *)
EXTENDS Util, TLC
VARIABLES u, id, store, last
vars == <<u, id, store, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Zero == [i \in 1..16 |-> 0]
None == [on |-> 0, h |-> <<>>, fl |-> 0, q |-> Zero]
VALID == 32
OURS == 16384
GENERATED == 32768 + 2048 + VALID     \* DIRTY, ORIG_GEN, VALID
Has(fl, b) == (fl \div b) % 2 = 1
Clr(fl, b) == IF Has(fl, b) THEN fl - b ELSE fl
Add(fl, b) == IF Has(fl, b) THEN fl ELSE fl + b
Kept(fl) == Clr(Clr(Clr(fl, 32768), 128), VALID)      \* validity and dirtiness are not stored

\* ------------------------------------------------------------ text
Nib(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
Hex(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Digits(s) == LET t == SelectSeq(s, LAMBDA c : Nib(c) >= 0) IN Take(t, 32)
\* each complete pair of digits replaces a byte; what the text does not reach stays
FromText(s, q) == LET t == Digits(s) IN [i \in 1..16 |-> IF 2 * i <= Len(t) THEN 16 * Nib(t[2 * i - 1]) + Nib(t[2 * i]) ELSE q[i]]
Pair(q, i) == <<Hex(q[i] \div 16), Hex(q[i] % 16)>>
ToText(q) == Flat([i \in 1..16 |-> IF i \in {5, 7, 9, 11} THEN <<45>> \o Pair(q, i) ELSE Pair(q, i)])
\* RFC 4122, version 4: all other bits are the platform's randomness
Gen(w) == [i \in 1..16 |-> CASE i = 7 -> 64 + (w[7] % 16) [] i = 9 -> 128 + (w[9] % 64) [] OTHER -> w[i]]

\* ------------------------------------------------------------ storage
Size(x) == Len(x.h) + 6 + 16
Ser(x) == LET n == Size(x) f == Kept(x.fl) IN <<n \div 256, n % 256, f \div 256, f % 256, 2>> \o x.h \o <<0>> \o x.q
Decl(b) == 256 * b[1] + b[2]
\* end of the name: position of the first zero from 6 on, or 0
NameEnd(b) == LET z == {i \in 6..Decl(b) : b[i] = 0} IN IF z = {} THEN 0 ELSE CHOOSE i \in z : \A j \in z : i <= j
Good(b) == /\ Len(b) > 6 /\ Decl(b) <= Len(b) /\ b[5] = 2
           /\ NameEnd(b) > 0 /\ NameEnd(b) + 16 <= Decl(b)
Load(b) == IF ~Good(b) THEN None
           ELSE [on |-> 1, h |-> SubSeq(b, 6, NameEnd(b) - 1), fl |-> 256 * b[3] + b[4], q |-> SubSeq(b, NameEnd(b) + 1, NameEnd(b) + 16)]

Shown(x) == IF x.on = 0 THEN <<>> ELSE <<Size(x), 2, Bit(Has(x.fl, 32768)), Bit(Has(x.fl, VALID)), Bit(Has(x.fl, OURS))>>
Obs == <<u[1], u[2], u[3], Shown(id[1]), id[1].h, IF id[1].on = 1 THEN id[1].q ELSE <<>>, Shown(id[2]), id[2].h, IF id[2].on = 1 THEN id[2].q ELSE <<>>, store>>

UFrom(k, s) == u' = [u EXCEPT ![k] = FromText(s, @)] /\ UNCHANGED <<id, store>> /\ Res("ufrom", <<k>>, <<s>>, <<0>>)
UTo(k, n) == UNCHANGED <<u, id, store>> /\ Res("uto", <<k, n>>, <<>>, IF n < 37 THEN <<>> ELSE ToText(u[k]))
USb(k) == UNCHANGED <<u, id, store>> /\ Res("usb", <<k>>, <<>>, ToText(u[k]))
UGen(k, w) == u' = [u EXCEPT ![k] = Gen(w)] /\ UNCHANGED <<id, store>> /\ Res("ugen", <<k>>, <<w>>, <<0>>)
UCmp(i, j) == UNCHANGED <<u, id, store>> /\ Res("ucmp", <<i, j>>, <<>>, <<IF u[i] = u[j] THEN 0 ELSE 1>>)
UCopy(i, j) == u' = [u EXCEPT ![j] = u[i]] /\ UNCHANGED <<id, store>> /\ Res("ucopy", <<i, j>>, <<>>, <<0>>)
Put(k, x) == id' = [id EXCEPT ![k] = x] /\ UNCHANGED <<u, store>>
IGen(k, h, w) == Put(k, [on |-> 1, h |-> h, fl |-> GENERATED, q |-> Gen(w)]) /\ Res("igen", <<k>>, <<h, w>>, <<0>>)
IStr(k, h, s) == Put(k, [on |-> 1, h |-> h, fl |-> 0, q |-> FromText(s, Zero)]) /\ Res("istr", <<k>>, <<h, s>>, <<0>>)
IFrom(k, b) == Put(k, Load(b)) /\ Res("ifrom", <<k>>, <<b>>, <<Bit(Good(b))>>)
ILoad(k) == Put(k, Load(store)) /\ Res("iload", <<k>>, <<>>, <<Bit(Good(store))>>)
IDel(k) == Put(k, None) /\ Res("idel", <<k>>, <<>>, <<0>>)
\* ask: -1 for toBuffer(), which needs exactly length() bytes
ISer(k, n) == /\ UNCHANGED <<u, id>>
              /\ LET x == id[k] fits == x.on = 1 /\ (n = -1 \/ n >= Size(x)) IN
                 /\ store' = (IF fits THEN Ser(x) ELSE store)
                 /\ Res("iser", <<k, n>>, <<>>, <<IF x.on = 0 THEN -99 ELSE IF fits THEN Size(x) ELSE 0>>)
ISelf(k, b) == /\ Put(k, IF id[k].on = 0 THEN id[k] ELSE [id[k] EXCEPT !.fl = IF b = 1 THEN Add(@, OURS) ELSE Clr(@, OURS)])
               /\ Res("iself", <<k, b>>, <<>>, <<IF id[k].on = 0 THEN -99 ELSE 0>>)
IFmt(k, f) == UNCHANGED <<u, id, store>> /\ Res("ifmt", <<k, f>>, <<>>, <<IF id[k].on = 0 THEN -99 ELSE Bit(f = 2)>>)
IName(k, h) == UNCHANGED <<u, id, store>> /\ Res("iname", <<k>>, <<h>>, <<IF id[k].on = 0 THEN -99 ELSE Bit(h = id[k].h)>>)
IText(k) == UNCHANGED <<u, id, store>> /\ Res("itext", <<k>>, <<>>, IF id[k].on = 0 THEN <<-99>> ELSE ToText(id[k].q))
Do(op, a, d) ==
  CASE op = "ufrom" -> UFrom(a[1], d[1]) [] op = "uto" -> UTo(a[1], a[2]) [] op = "usb" -> USb(a[1]) [] op = "ugen" -> UGen(a[1], d[1])
    [] op = "ucmp" -> UCmp(a[1], a[2]) [] op = "ucopy" -> UCopy(a[1], a[2])
    [] op = "igen" -> IGen(a[1], d[1], d[2]) [] op = "istr" -> IStr(a[1], d[1], d[2]) [] op = "ifrom" -> IFrom(a[1], d[1])
    [] op = "iload" -> ILoad(a[1]) [] op = "idel" -> IDel(a[1]) [] op = "iser" -> ISer(a[1], a[2]) [] op = "iself" -> ISelf(a[1], a[2])
    [] op = "ifmt" -> IFmt(a[1], a[2]) [] op = "iname" -> IName(a[1], d[1]) [] op = "itext" -> IText(a[1]) [] OTHER -> FALSE
Init == /\ u = [i \in 1..3 |-> Zero] /\ id = [i \in 1..2 |-> None] /\ store = <<>>
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
