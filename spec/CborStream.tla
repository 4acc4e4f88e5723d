---------------------------- MODULE CborStream ----------------------------
(* The streaming CBOR codec: a decoder that is fed bytes in pieces and reports what it has read to a listener, and the encoder. *)
EXTENDS CborBytes
VARIABLES mode,          \* input: -1 none, 0 buffer left alone, 1 buffer consumed
          rest,          \* bytes that do not make a complete item yet
          failed, last
vars == <<mode, rest, failed, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Obs == <<<<failed>>>>

\* kinds of events: 1 integer (sign, argument), 2 bytes, 3 text, 4 array, 5 map, 6 tag, 7 bool, 8 null, 9 undefined, 10 simple,
\* 11 float, 12 double, 13 error, 14 integer below the 64-bit range (the only kind that may not be given as an ordinary integer)
Integer(neg, v) == IF neg = 1 /\ v[4] > 32767 THEN <<14>> \o v ELSE <<1, neg>> \o v
\* one item from index i; what cannot be held is an error
Item(b, i) ==
  LET h == HeadAt(b, i) IN
  IF h.st = "more" THEN [st |-> "more"]
  ELSE IF h.st = "bad" THEN [st |-> "err", next |-> i + 1]
  ELSE CASE h.major = 0 -> [st |-> "ok", ev |-> Integer(0, h.arg), next |-> h.next]
         [] h.major = 1 -> [st |-> "ok", ev |-> Integer(1, h.arg), next |-> h.next]
         [] h.major \in {2, 3} ->
              IF h.minor = 27 \/ ~Below31(h.arg) THEN [st |-> "err", next |-> h.next]
              ELSE IF ~Small(h.arg) \/ h.next + Num(h.arg) - 1 > Len(b) THEN [st |-> "more"]
              ELSE LET p == SubSeq(b, h.next, h.next + Num(h.arg) - 1)  q == IF h.major = 3 THEN CText(p) ELSE p IN
                   [st |-> "ok", ev |-> <<h.major, Len(q)>> \o q, next |-> h.next + Len(p)]
         [] h.major \in {4, 5} -> IF h.minor = 27 THEN [st |-> "err", next |-> h.next] ELSE [st |-> "ok", ev |-> <<h.major>> \o h.arg, next |-> h.next]
         [] h.major = 6 -> [st |-> "ok", ev |-> <<6>> \o h.arg, next |-> h.next]
         [] h.major = 7 ->
              [st |-> "ok", next |-> h.next,
               ev |-> CASE h.minor \in {20, 21} -> <<7, h.minor - 20>> [] h.minor = 22 -> <<8>> [] h.minor = 23 -> <<9>>
                        [] h.minor = 26 -> <<11, h.arg[1], h.arg[2]>> [] h.minor = 27 -> <<12>> \o h.arg [] OTHER -> <<10, h.arg[1]>>]
\* all items from the front; stops for good at an error
Run(b) ==
  LET RECURSIVE go(_, _)
      go(i, evs) == LET t == Item(b, i) IN
                    IF t.st = "more" THEN [evs |-> evs, rest |-> SubSeq(b, i, Len(b)), err |-> 0]
                    ELSE IF t.st = "err" THEN [evs |-> evs \o <<13>>, rest |-> <<>>, err |-> 1]
                    ELSE go(t.next, evs \o t.ev)
  IN go(1, <<>>)

New(m) == /\ mode' = m /\ rest' = <<>> /\ failed' = 0 /\ Res("new", <<m>>, <<>>, <<>>)
\* bytes arrive and the decoder runs
Feed(d) == LET x == Run(rest \o d) IN
  /\ mode \in 0..1 /\ UNCHANGED mode
  /\ IF failed = 1 THEN UNCHANGED <<rest, failed>> /\ Res("feed", <<>>, <<d>>, <<>>)
     ELSE rest' = x.rest /\ failed' = x.err /\ Res("feed", <<>>, <<d>>, x.evs)
\* a fresh decoder reads a block of memory
Whole(d) == /\ UNCHANGED <<mode, rest, failed>> /\ Res("whole", <<>>, <<d>>, Run(d).evs)

\* ---- encoder
\* signed integers of w bits are given as their two's complement in 64 bits
IsNeg64(v) == v[4] > 32767
Inv(v) == [i \in 1..4 |-> 65535 - v[i]]
TypedTag(k) == CASE k = 1 -> 64 [] k = 2 -> 69 [] k = 3 -> 70 [] k = 4 -> 71 [] k = 6 -> 72 [] k = 7 -> 77 [] k = 8 -> 78 [] k = 9 -> 79 [] k = 12 -> 85 [] k = 13 -> 86
Enc(k, v, d) ==
  CASE k = 0 -> EncHead(0, v)                                       \* unsigned, any width
    [] k = 1 -> IF IsNeg64(v) THEN EncHead(1, Inv(v)) ELSE EncHead(0, v)
    [] k = 2 -> EncHead(2, LenLimbs(Len(d))) \o d
    [] k = 3 -> EncHead(3, LenLimbs(Len(d))) \o d
    [] k = 4 -> EncHead(4, v)
    [] k = 5 -> EncHead(5, v)
    [] k = 6 -> EncHead(6, v)
    [] k = 7 -> <<244 + v[1]>>
    [] k = 11 -> <<250, Hi(v[2]), Lo(v[2]), Hi(v[1]), Lo(v[1])>>
    [] k = 12 -> <<251, Hi(v[4]), Lo(v[4]), Hi(v[3]), Lo(v[3]), Hi(v[2]), Lo(v[2]), Hi(v[1]), Lo(v[1])>>
\* an item is written; w is the width of an integer
Encode(k, w, v, d) == /\ UNCHANGED <<mode, rest, failed>> /\ Res("enc", <<k, w>> \o v, <<d>>, Enc(k, v, d))
\* the same, into memory of limited size: never beyond it
EncodeTo(cap, k, w, v, d) == LET e == Enc(k, v, d) IN
  /\ UNCHANGED <<mode, rest, failed>> /\ Res("encto", <<cap, k, w>> \o v, <<d>>, IF Len(e) <= cap THEN e ELSE <<-1>>)
Do(op, a, d) ==
  CASE op = "new" -> New(a[1])
    [] op = "feed" -> Feed(d[1])
    [] op = "whole" -> Whole(d[1])
    [] op = "enc" -> Encode(a[1], a[2], SubSeq(a, 3, 6), d[1])
    [] op = "encto" -> EncodeTo(a[1], a[2], a[3], SubSeq(a, 4, 7), d[1])
    [] OTHER -> FALSE
Init == mode = -1 /\ rest = <<>> /\ failed = 0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
