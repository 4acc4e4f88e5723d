------------------------------ MODULE Record ------------------------------
(* A data record: a 40-byte descriptor ahead of a payload, which a record of some kind provides and takes back.  The payload here is
   any byte string; the record's kind refuses to take one that begins with 255, and to give one when told to fail. *)
EXTENDS Util, TLC
VARIABLES made,      \* there is a record
          kind, fmt, key, stamp, hashlen,    \* hashlen: length of the payload that the stored hash is for, -1 if none
          loaded, sure,                      \* sure: the descriptor is not that of a load which was refused
          pay, fails,
          last
vars == <<made, kind, fmt, key, stamp, hashlen, loaded, sure, pay, fails, last>>
Obs == <<pay>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]

CBOR == 98                     \* the format records are written in, unless they came in another
Key(name) == [i \in 1..16 |-> IF i <= Len(name) THEN name[i] ELSE 0]
Le32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* the digest is of the length, in all four bytes
XorAA(b) == LET x(i) == (b \div (2 ^ i)) % 2 IN SumSeq([i \in 1..8 |-> (IF x(i - 1) = (170 \div (2 ^ (i - 1))) % 2 THEN 0 ELSE 1) * (2 ^ (i - 1))])
Digest(n) == LET l == Le32(n) IN [i \in 1..4 |-> XorAA(l[i])]
Image(k, tag, f, name, ts, p) == tag \o <<1, 0, k, f>> \o Key(name) \o Le32(Len(p)) \o ts \o Digest(Len(p)) \o p

\* what a load of bytes b for that tag gives: <<result, payload>>
LenField(b) == SubSeq(b, 25, 28)
PlainLen(b) == b[27] = 0 /\ b[28] = 0          \* a length this large is always beyond the data
Claimed(b) == b[25] + 256 * b[26]
LoadRes(k, tag, b) ==
  IF Len(b) < 40 \/ b[5] # 1 \/ b[7] # k THEN <<-1, <<>>>>
  ELSE IF SubSeq(b, 1, 4) # tag THEN <<-2, <<>>>>
  ELSE IF ~PlainLen(b) \/ Claimed(b) > Len(b) - 40 THEN <<-2, <<>>>>
  ELSE IF SubSeq(b, 37, 40) # Digest(Claimed(b)) THEN <<-3, <<>>>>
  ELSE LET p == SubSeq(b, 41, 40 + Claimed(b)) IN
       IF b[8] # CBOR \/ (p # <<>> /\ p[1] = 255) THEN <<-4, <<>>>> ELSE <<0, p>>

New(k) == /\ made' = TRUE /\ kind' = k /\ fmt' = CBOR /\ key' = Key(<<>>) /\ stamp' = <<0, 0, 0, 0, 0, 0, 0, 0>> /\ hashlen' = -1 /\ loaded' = FALSE
          /\ sure' = TRUE /\ pay' = <<>> /\ fails' = 0 /\ Res("new", <<k>>, <<>>, <<0>>)
Pay(p) == pay' = p /\ UNCHANGED <<made, kind, fmt, key, stamp, hashlen, loaded, sure, fails>> /\ Res("pay", <<>>, <<p>>, <<0>>)
Fail(x) == fails' = x /\ UNCHANGED <<made, kind, fmt, key, stamp, hashlen, loaded, sure, pay>> /\ Res("fail", <<x>>, <<>>, <<0>>)
\* written out under that tag and name; <<result>> and the bytes
Save(tag, name) ==
  /\ UNCHANGED <<made, kind, fmt, stamp, loaded, sure, pay, fails>>
  /\ IF ~sure THEN UNCHANGED <<key, hashlen>> /\ Res("save", <<>>, <<tag, name>>, <<-99>>)
     ELSE IF name = <<>> THEN UNCHANGED <<key, hashlen>> /\ Res("save", <<>>, <<tag, name>>, <<-1>>)
     ELSE /\ key' = Key(name)
          /\ IF fails = 1 THEN UNCHANGED hashlen /\ Res("save", <<>>, <<tag, name>>, <<-2>>)
             ELSE hashlen' = Len(pay) /\ Res("save", <<>>, <<tag, name>>, <<0>> \o Image(kind, tag, fmt, name, stamp, pay))
\* read from a StringBuilder (via = 0) or a plain buffer
Load(via, tag, b) ==
  LET x == LoadRes(kind, tag, b) IN
  /\ UNCHANGED <<made, kind, fails>> /\ Res("load", <<via>>, <<tag, b>>, <<x[1]>>)
  /\ IF x[1] = 0 THEN fmt' = b[8] /\ key' = SubSeq(b, 9, 24) /\ stamp' = SubSeq(b, 29, 36) /\ hashlen' = Claimed(b) /\ loaded' = TRUE /\ sure' = TRUE /\ pay' = x[2]
     ELSE UNCHANGED <<fmt, key, stamp, hashlen, loaded, pay>> /\ sure' = (sure /\ Len(b) < 40)
\* is it other than what was last written or read; was it read; the digest now, and when it was created
Stat == /\ UNCHANGED <<made, kind, fmt, key, stamp, hashlen, loaded, sure, pay, fails>>
        /\ Res("stat", <<>>, <<>>, IF ~sure THEN <<-99>>
             ELSE <<IF fails = 1 THEN Bit(hashlen >= 0) ELSE Bit(hashlen # Len(pay)), Bit(loaded)>> \o (IF fails = 1 THEN <<0, 0, 0, 0>> ELSE Digest(Len(pay))) \o stamp)
\* the name it goes by, as printed
Name == /\ UNCHANGED <<made, kind, fmt, key, stamp, hashlen, loaded, sure, pay, fails>>
        /\ Res("name", <<>>, <<>>, IF ~sure THEN <<-99>> ELSE IF HasElem(key, 0) THEN Take(key, IndexOf(key, 0) - 1) ELSE key)
Do(op, a, d) == CASE op = "new" -> New(a[1]) [] op = "pay" -> made /\ Pay(d[1]) [] op = "fail" -> made /\ Fail(a[1])
                  [] op = "save" -> made /\ Save(d[1], d[2]) [] op = "load" -> made /\ Load(a[1], d[1], d[2])
                  [] op = "stat" -> made /\ Stat [] op = "name" -> made /\ Name [] OTHER -> FALSE
Init == made = FALSE /\ kind = 0 /\ fmt = CBOR /\ key = Key(<<>>) /\ stamp = <<0, 0, 0, 0, 0, 0, 0, 0>> /\ hashlen = -1 /\ loaded = FALSE /\ sure = TRUE /\ pay = <<>>
        /\ fails = 0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
