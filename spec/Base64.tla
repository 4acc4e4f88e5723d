------------------------------ MODULE Base64 ------------------------------
(* Base64Encoder and Base64Decoder between a caller, who keeps what was not claimed, and an accepter downstream with announced room.
   A push transforms one chunk (the configured input length, or the whole buffer) or claims nothing. *)
EXTENDS Util, TLC
VARIABLES mode,          \* 0 encoder, 1 decoder, -1 nothing
          link,          \* an accepter is connected
          chunk, buf, room, got, last
vars == <<mode, link, chunk, buf, room, got, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Obs == <<buf, got, IF mode < 0 THEN <<>> ELSE <<room>>>>
Quiet == got' = <<>>

\* RFC 4648
Ch(v) == CASE v < 26 -> 65 + v [] v < 52 -> 97 + v - 26 [] v < 62 -> 48 + v - 52 [] v = 62 -> 43 [] OTHER -> 47
Val(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 97 + 26 [] c \in 48..57 -> c - 48 + 52 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
\* i-th output character (from 0) of an encoding
EncAt(s, i) == LET b(k) == IF k < Len(s) THEN s[k + 1] ELSE 0
                   g == 3 * (i \div 4) IN
  CASE i % 4 = 0 -> Ch(b(g) \div 4)
    [] i % 4 = 1 -> Ch((b(g) % 4) * 16 + b(g + 1) \div 16)
    [] i % 4 = 2 -> IF g + 1 >= Len(s) THEN 61 ELSE Ch((b(g + 1) % 16) * 4 + b(g + 2) \div 64)
    [] OTHER     -> IF g + 2 >= Len(s) THEN 61 ELSE Ch(b(g + 2) % 64)
Enc(s) == [i \in 1..(4 * ((Len(s) + 2) \div 3)) |-> EncAt(s, i - 1)]
Pad(s) == IF s = <<>> THEN 0 ELSE IF s[Len(s)] # 61 THEN 0 ELSE IF s[Len(s) - 1] # 61 THEN 1 ELSE 2
Valid(s) == /\ Len(s) > 0 /\ Len(s) % 4 = 0
            /\ \A i \in 1..(Len(s) - Pad(s)) : Val(s[i]) >= 0
DecAt(s, i) == LET g == 4 * (i \div 3)
                   v(k) == MaxI(0, Val(s[g + k + 1])) IN
  CASE i % 3 = 0 -> v(0) * 4 + v(1) \div 16
    [] i % 3 = 1 -> (v(1) % 16) * 16 + v(2) \div 4
    [] OTHER     -> (v(2) % 4) * 64 + v(3)
Dec(s) == [i \in 1..(3 * (Len(s) \div 4) - Pad(s)) |-> DecAt(s, i - 1)]

New(m, c) == mode' = m /\ link' = 1 /\ chunk' = c /\ buf' = <<>> /\ room' = 0 /\ Quiet /\ Res("new", <<m, c>>, <<>>, <<0>>)
Link(x) == link' = x /\ UNCHANGED <<mode, chunk, buf, room>> /\ Quiet /\ Res("link", <<x>>, <<>>, <<0>>)
Chunk(c) == chunk' = c /\ UNCHANGED <<mode, link, buf, room>> /\ Quiet /\ Res("chunk", <<c>>, <<>>, <<0>>)
Feed(b) == buf' = buf \o b /\ UNCHANGED <<mode, link, chunk, room>> /\ Quiet /\ Res("feed", <<>>, <<b>>, <<0>>)
Room(n) == room' = n /\ UNCHANGED <<mode, link, chunk, buf>> /\ Quiet /\ Res("room", <<n>>, <<>>, <<0>>)
Discard == buf' = <<>> /\ UNCHANGED <<mode, link, chunk, room>> /\ Quiet /\ Res("discard", <<>>, <<>>, <<0>>)
\* fits: the chunk is smaller than what bufferAvailable() announced.  How far that announcement is conservative is left open.
Push == LET n == IF chunk = 0 THEN Len(buf) ELSE chunk
            ok == link = 1 /\ n > 0 /\ n <= Len(buf) /\ (mode = 1 => Valid(Take(buf, n)))
            out == IF mode = 0 THEN Enc(Take(buf, n)) ELSE Dec(Take(buf, n)) IN
  /\ UNCHANGED <<mode, link, chunk>>
  /\ \E fits \in 0..1 :
       /\ (fits = 1 => link = 1)
       /\ (link = 1 /\ n > 0 /\ room >= 2 * n + 16 => fits = 1)
       /\ IF ok /\ fits = 1
          THEN /\ Len(out) <= room             \* else bytes would be lost downstream
               /\ got' = out /\ room' = room - Len(out) /\ buf' = Drop(buf, n)
               /\ Res("push", <<>>, <<>>, <<IF n = Len(buf) THEN 1 ELSE 0, fits>>)
          ELSE UNCHANGED <<buf, room>> /\ Quiet /\ Res("push", <<>>, <<>>, <<-1, fits>>)
Do(op, a, d) == CASE op = "new" -> New(a[1], a[2]) [] op = "link" -> Link(a[1]) [] op = "chunk" -> Chunk(a[1]) [] op = "feed" -> Feed(d[1])
                  [] op = "room" -> Room(a[1]) [] op = "discard" -> Discard [] op = "push" -> Push [] OTHER -> FALSE
Init == /\ mode = -1 /\ link = 0 /\ chunk = 0 /\ buf = <<>> /\ room = 0 /\ got = <<>>
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
