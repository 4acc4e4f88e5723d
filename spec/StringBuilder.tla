--------------------------- MODULE StringBuilder ---------------------------
(* Two StringBuilder objects (numbered 1 and 2), each a sequence of non-    *)
(* empty fragments ("tokens").  The content of a builder is the             *)
(* concatenation of its fragments; every content-level call is defined on   *)
(* that concatenation alone.  t is the object called, 3-t its partner.      *)
EXTENDS Text, TLC

VARIABLES f,     \* f[t]: fragments of builder t
          last
vars == <<f, last>>

C(t) == Flat(f[t])                     \* content
Cp(t) == Flat(f'[t])
O(t) == 3 - t

Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Same == UNCHANGED f
Set(t, x) == f' = [f EXCEPT ![t] = x]
Set2(t, x, y) == f' = [f EXCEPT ![t] = x, ![O(t)] = y]

ObsContent == <<C(1), C(2), <<Len(C(1)), Len(C(2)), Bit(C(1) = <<>>), Bit(C(2) = <<>>)>>>>
ObsTokens  == <<<<Len(f[1]), Len(f[2])>>>> \o f[1] \o f[2]

\* ---------------------------------------------------------------- pure definitions
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
MatchAt(s, n, i) == i + Len(n) <= Len(s) /\ \A k \in 1..Len(n) : s[i + k] = n[k]   \* i is 0-based
RECURSIVE FindFrom(_, _, _)
FindFrom(s, n, i) == IF i + Len(n) > Len(s) THEN -1 ELSE IF MatchAt(s, n, i) THEN i ELSE FindFrom(s, n, i + 1)
Locate(s, n, i) == IF n = <<>> \/ s = <<>> THEN -1 ELSE FindFrom(s, n, i)
\* leftmost non-overlapping replacement; result and number of replacements
RECURSIVE Repl(_, _, _, _)
Repl(s, n, x, i) == LET k == FindFrom(s, n, i) IN
                    IF k < 0 THEN <<Drop(s, i), 0>>
                    ELSE LET rest == Repl(s, n, x, k + Len(n)) IN
                         <<SubSeq(s, i + 1, k) \o x \o rest[1], rest[2] + 1>>
\* strtok-like: maximal runs of non-delimiters
RECURSIVE Join(_, _)
Join(ts, x) == IF Len(ts) <= 1 THEN Flat(ts) ELSE Head(ts) \o x \o Join(Tail(ts), x)
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF s = <<>> THEN <<>> ELSE <<Take(s, n)>> \o Chunks(Drop(s, n), n)
\* fragments holding the first n bytes, whole where possible
RECURSIVE TakeFrags(_, _)
TakeFrags(fs, n) == IF n = 0 \/ fs = <<>> THEN <<>>
                    ELSE IF Len(Head(fs)) <= n THEN <<Head(fs)>> \o TakeFrags(Tail(fs), n - Len(Head(fs)))
                    ELSE <<Take(Head(fs), n)>>
RECURSIVE DropFrags(_, _)
DropFrags(fs, n) == IF n = 0 \/ fs = <<>> THEN fs
                    ELSE IF Len(Head(fs)) <= n THEN DropFrags(Tail(fs), n - Len(Head(fs)))
                    ELSE <<Drop(Head(fs), n)>> \o Tail(fs)
TokenAt(t, i) == IF i >= 0 /\ i < Len(f[t]) THEN f[t][i + 1] ELSE <<>>

\* ---------------------------------------------------------------- actions
New == f' = <<<<>>, <<>>>> /\ Res("new", <<>>, <<>>, <<0>>)
End == f' = <<<<>>, <<>>>> /\ Res("end", <<>>, <<>>, <<0>>)       \* everything freed: nothing leaked

\* --- building (each adds at most one fragment)
Concat(t, s)     == Set(t, f[t] \o Piece(s)) /\ Res("concat", <<t>>, <<s>>, <<0>>)
ConcatStr(t, s)  == Set(t, f[t] \o Piece(s)) /\ Res("concats", <<t>>, <<s>>, <<0>>)
ConcatBuf(t, s)  == Set(t, f[t] \o Piece(s)) /\ Res("handbuf", <<t>>, <<s>>, <<0>>)
ConcatByte(t, b) == Set(t, Append(f[t], <<b>>)) /\ Res("concatb", <<t, b>>, <<>>, <<0>>)
ConcatInt(t, n)  == Set(t, Append(f[t], Dec(n))) /\ Res("concati", <<t, n>>, <<>>, <<0>>)
\* concat(double) of +-m*10^k, 1 <= m <= 9, 0 <= k <= 21 (exact in binary64)
ConcatDbl(t, n, k) == Set(t, Append(f[t], Dec(n) \o Zeros(k) \o <<46>> \o Zeros(6)))
                      /\ Res("concatd", <<t, n, k>>, <<>>, <<0>>)
\* concatf("<%s|%d>", s, n)
ConcatF(t, n, s) == LET x == <<60>> \o s \o <<124>> \o Dec(n) \o <<62>> IN
                    Set(t, Append(f[t], x)) /\ Res("concatf", <<t, n>>, <<s>>, <<Len(x)>>)
Prepend(t, s) == Set(t, Piece(s) \o f[t]) /\ Res("prepend", <<t>>, <<s>>, <<0>>)
ConcatSB(t)   == Set(t, f[t] \o Piece(C(O(t)))) /\ Res("concatsb", <<t>>, <<>>, <<0>>)
CopyLimit(t, n) == Set(t, f[t] \o Piece(Take(C(O(t)), n))) /\ Res("copylimit", <<t, n>>, <<>>, <<0>>)

\* --- handoff: the donor is builder 3-t
Handoff(t)    == Set2(t, f[t] \o f[O(t)], <<>>) /\ Res("handoff", <<t>>, <<>>, <<0>>)
PreHandoff(t) == Set2(t, f[O(t)] \o f[t], <<>>) /\ Res("prehandoff", <<t>>, <<>>, <<0>>)
LimitHandoff(t, n) == Set2(t, f[t] \o TakeFrags(f[O(t)], n), DropFrags(f[O(t)], n)) /\ Res("limit", <<t, n>>, <<>>, <<0>>)
PosHandoff(t, p, n) ==
  LET src == f[O(t)]
      k == IF p < Len(src) THEN MinI(n, Len(src) - p) ELSE 0 IN
  /\ Set2(t, f[t] \o SubSeq(src, p + 1, p + k), Take(src, p) \o Drop(src, p + k))
  /\ Res("poshandoff", <<t, p, n>>, <<>>, <<k>>)

\* --- content
Cull1(t, n) == /\ IF n <= 0 THEN Same ELSE Set(t, Piece(Drop(C(t), n)))
               /\ Res("cull1", <<t, n>>, <<>>, <<0>>)
\* keep [off, off+n) when that range exists; n = 0 clears
Cull2(t, off, n) == /\ IF n = 0 THEN Set(t, <<>>)
                       ELSE IF off >= 0 /\ n > 0 /\ Len(C(t)) >= off + n THEN Set(t, <<SubSeq(C(t), off + 1, off + n)>>)
                       ELSE Same
                    /\ Res("cull2", <<t, off, n>>, <<>>, <<0>>)
Clear(t)  == Set(t, <<>>) /\ Res("clear", <<t>>, <<>>, <<0>>)
ToUpper(t) == Set(t, [i \in 1..Len(f[t]) |-> Upper(f[t][i])]) /\ Res("upper", <<t>>, <<>>, <<0>>)
ToLower(t) == Set(t, [i \in 1..Len(f[t]) |-> Lower(f[t][i])]) /\ Res("lower", <<t>>, <<>>, <<0>>)
Str(t)    == Set(t, Piece(C(t))) /\ Res("string", <<t>>, <<>>, C(t))       \* flattens; NUL-terminated
ByteAt(t, i) == Same /\ Res("byteat", <<t, i>>, <<>>, <<IF i >= 0 /\ i < Len(C(t)) THEN C(t)[i + 1] ELSE 0>>)
CopyTo(t, n, off) == LET x == Take(Drop(C(t), off), n) IN
                     Same /\ Res("copyto", <<t, n, off>>, <<>>, <<Len(x)>> \o x)
IsEmpty(t) == Same /\ Res("isempty", <<t>>, <<>>, <<Bit(C(t) = <<>>), Bit(C(t) = <<>> \/ C(t) = <<0>>)>>)

\* --- search
Loc(t, i, s) == Same /\ Res("locate", <<t, i>>, <<s>>, <<Locate(C(t), s, i)>>)
ContainsStr(t, s) == Same /\ Res("containss", <<t>>, <<s>>, <<Bit(Locate(C(t), s, 0) >= 0)>>)
ContainsChr(t, b) == Same /\ Res("containsc", <<t, b>>, <<>>, <<Bit(HasElem(C(t), b))>>)
CmpBin(t, s) == Same /\ Res("cmpbin", <<t>>, <<s>>, <<Bit(s # <<>> /\ C(t) = s)>>)
Replace(t, s, x) == LET r == Repl(C(t), s, x, 0) IN
  /\ IF s = <<>> \/ r[2] = 0 THEN Same /\ Res("replace", <<t>>, <<s, x>>, <<0>>)
     ELSE Set(t, Piece(r[1])) /\ Res("replace", <<t>>, <<s, x>>, <<r[2]>>)

\* --- tokens
Split(t, ds) == LET ts == Tok(C(t), ds, <<>>) IN
  /\ IF ts = <<>> THEN Set(t, Piece(C(t))) ELSE Set(t, ts)
  /\ Res("split", <<t>>, <<ds>>, <<Len(ts)>>)
Implode(t, x) == IF x = <<>> \/ Len(f[t]) < 2 THEN Same /\ Res("implode", <<t>>, <<x>>, <<0>>)
                 ELSE Set(t, <<Join(f[t], x)>>) /\ Res("implode", <<t>>, <<x>>, <<Len(f[t])>>)
Chunk(t, n) == IF n <= 0 THEN Same /\ Res("chunk", <<t, n>>, <<>>, <<-1>>)
               ELSE LET ts == Chunks(C(t), n) IN
                    Set(t, ts) /\ Res("chunk", <<t, n>>, <<>>, <<MaxI(1, Len(ts))>>)
DropPos(t, i) == IF i < Len(f[t]) THEN Set(t, RemoveAtIdx(f[t], i + 1)) /\ Res("drop", <<t, i>>, <<>>, <<1>>)
                 ELSE Same /\ Res("drop", <<t, i>>, <<>>, <<0>>)
Position(t, i) == Same /\ Res("position", <<t, i>>, <<>>, TokenAt(t, i))
PosTrim(t, i) ==     \* returns the token without surrounding blanks; text only
  LET s == TokenAt(t, i)
      z == LTrim(s)
      k == Len(s) - Len(z) + Len(RTrim(z)) IN
  \* the token is shortened in place by a terminator: its first trailing blank becomes 0
  /\ IF z # <<>> /\ k < Len(s) THEN Set(t, [f[t] EXCEPT ![i + 1][k + 1] = 0]) ELSE Same
  /\ Res("postrim", <<t, i>>, <<>>, RTrim(z))
PosInt(t, i) ==      \* 32-bit result as two limbs; up to 8 hex digits after 0x, or a decimal
  LET s == TokenAt(t, i)
      r == IF IsHexTok(s) THEN HexLimbs(HexPrefix(Take(Drop(s, 2), 8)), 2)
           ELSE LET v == Atoi(s) IN <<v % 65536, (v \div 65536) % 65536>> IN
  Same /\ Res("posint", <<t, i>>, <<>>, r)
PosU64(t, i) ==      \* 64-bit result as four limbs; decimals are kept within 31 bits here
  LET s == TokenAt(t, i)
      r == IF IsHexTok(s) THEN HexLimbs(HexPrefix(Take(Drop(s, 2), 16)), 4)
           ELSE LET v == Atoi(s)  h == IF v < 0 THEN 65535 ELSE 0 IN <<v % 65536, (v \div 65536) % 65536, h, h>> IN
  Same /\ Res("posu64", <<t, i>>, <<>>, r)
MaxFrag(t) == Same /\ Res("maxfrag", <<t>>, <<>>,
                 <<IF f[t] = <<>> THEN 0 ELSE CHOOSE m \in {Len(f[t][i]) : i \in 1..Len(f[t])} :
                                         \A i \in 1..Len(f[t]) : Len(f[t][i]) <= m>>)

Do(op, a, d) ==
  CASE op = "new" -> New                         [] op = "end" -> End
    [] op = "concat" -> Concat(a[1], d[1])       [] op = "concats" -> ConcatStr(a[1], d[1])
    [] op = "handbuf" -> ConcatBuf(a[1], d[1])   [] op = "concatb" -> ConcatByte(a[1], a[2])
    [] op = "concati" -> ConcatInt(a[1], a[2])   [] op = "concatd" -> ConcatDbl(a[1], a[2], a[3])
    [] op = "concatf" -> ConcatF(a[1], a[2], d[1])
    [] op = "prepend" -> Prepend(a[1], d[1])     [] op = "concatsb" -> ConcatSB(a[1])
    [] op = "copylimit" -> CopyLimit(a[1], a[2])
    [] op = "handoff" -> Handoff(a[1])           [] op = "prehandoff" -> PreHandoff(a[1])
    [] op = "limit" -> LimitHandoff(a[1], a[2])  [] op = "poshandoff" -> PosHandoff(a[1], a[2], a[3])
    [] op = "cull1" -> Cull1(a[1], a[2])         [] op = "cull2" -> Cull2(a[1], a[2], a[3])
    [] op = "clear" -> Clear(a[1])               [] op = "upper" -> ToUpper(a[1])
    [] op = "lower" -> ToLower(a[1])             [] op = "string" -> Str(a[1])
    [] op = "byteat" -> ByteAt(a[1], a[2])       [] op = "copyto" -> CopyTo(a[1], a[2], a[3])
    [] op = "isempty" -> IsEmpty(a[1])
    [] op = "locate" -> Loc(a[1], a[2], d[1])    [] op = "containss" -> ContainsStr(a[1], d[1])
    [] op = "containsc" -> ContainsChr(a[1], a[2]) [] op = "cmpbin" -> CmpBin(a[1], d[1])
    [] op = "replace" -> Replace(a[1], d[1], d[2])
    [] op = "split" -> Split(a[1], d[1])         [] op = "implode" -> Implode(a[1], d[1])
    [] op = "chunk" -> Chunk(a[1], a[2])         [] op = "drop" -> DropPos(a[1], a[2])
    [] op = "position" -> Position(a[1], a[2])   [] op = "postrim" -> PosTrim(a[1], a[2])
    [] op = "posint" -> PosInt(a[1], a[2])       [] op = "posu64" -> PosU64(a[1], a[2])
    [] op = "maxfrag" -> MaxFrag(a[1])
    [] OTHER -> FALSE

Init == f = <<<<>>, <<>>>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
