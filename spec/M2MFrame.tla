------------------------------ MODULE M2MFrame ------------------------------
(* The frames of the machine-to-machine link: code, flags, total length (1-3 bytes, big-endian, the fewest that hold
   it), message ID (0-3 bytes, likewise), checksum, payload. *)
EXTENDS Util, TLC

Codes == {1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15} \cup 16..31
ExpBit == 1
RepBit == 2
Exp(f) == f % 2 = 1
Rep(f) == (f \div 2) % 2 = 1
Resv(f) == (f \div 4) % 4
LenL(f) == (f \div 16) % 4
IdL(f) == f \div 64
NB(x) == IF x = 0 THEN 0 ELSE IF x < 256 THEN 1 ELSE IF x < 65536 THEN 2 ELSE IF x < 16777216 THEN 3 ELSE 4
HLen(f) == IF LenL(f) = 0 THEN 0 ELSE 3 + LenL(f) + IdL(f)
Chk(c, f, len) == (c + f + (len % 256) + 1) % 256
\* size of the length field needed by a frame with so many bytes besides the length field
LenBytes(rest) == IF rest + 1 < 256 THEN 1 ELSE IF rest + 2 < 65536 THEN 2 ELSE 3
\* header of a frame with the given code, reply bits (0-3), id and payload length
MkHdr(c, rb, id, pl) ==
  LET i == NB(id) rest == 3 + i + pl b == LenBytes(rest)
      f == rb + 16 * b + 64 * i
  IN [c |-> c, f |-> f, len |-> rest + b, id |-> id, k |-> Chk(c, f, rest + b)]
RECURSIVE BE(_, _)
BE(x, n) == IF n = 0 THEN <<>> ELSE Append(BE(x \div 256, n - 1), x % 256)
HdrBytes(h) == <<h.c, h.f>> \o BE(h.len, LenL(h.f)) \o BE(h.id, IdL(h.f)) \o <<h.k>>
PayLen(h) == h.len - HLen(h.f)
HdrValid(h) == /\ Resv(h.f) = 0 /\ HLen(h.f) >= 4 /\ h.c \in Codes
               /\ NB(h.id) = IdL(h.f) /\ NB(h.len) = LenL(h.f) /\ h.len >= HLen(h.f)
               /\ h.k = Chk(h.c, h.f, h.len)
               /\ (h.c = 1 \/ (((h.f % 4) # 0) = (IdL(h.f) > 0)))
RECURSIVE Num(_, _)
Num(b, n) == IF n = 0 THEN 0 ELSE 256 * Num(b, n - 1) + b[n]
NoHdr == [c |-> 0, f |-> 0, len |-> 0, id |-> 0, k |-> 0]
\* what stands at the start of the bytes: <<verdict, header>>
\*   -2 too few bytes to tell, -3 not a header, 0 a header whose payload is not all there, 1 without payload, 2 complete
Parse(b) ==
  IF Len(b) < 4 \/ Len(b) < HLen(b[2]) THEN <<-2, NoHdr>>
  ELSE LET f == b[2] l == LenL(f) i == IdL(f)
           h == [c |-> b[1], f |-> f, len |-> Num(SubSeq(b, 3, 2 + l), l), id |-> Num(SubSeq(b, 3 + l, 2 + l + i), i), k |-> b[3 + l + i]]
       IN IF l = 0 THEN <<-3, NoHdr>>
          ELSE IF h.k # Chk(h.c, h.f, h.len) \/ h.len < HLen(f) THEN <<-3, NoHdr>>
          ELSE <<IF PayLen(h) = 0 THEN 1 ELSE IF h.len > Len(b) THEN 0 ELSE 2, h>>
Frame(c, rb, id, pl) == HdrBytes(MkHdr(c, rb, id, Len(pl))) \o pl
\* synchronisation frames
IsSyncAt(b, i) == b[i] = 1 /\ b[i + 1] \in 16..19 /\ b[i + 2] = 4 /\ b[i + 3] = (b[i] + b[i + 1] + b[i + 2] + 1)
SyncFrame(rb) == <<1, 16 + rb, 4, 22 + rb>>
=============================================================================
