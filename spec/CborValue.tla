----------------------------- MODULE CborValue -----------------------------
(* Values and key-value pairs as CBOR: what C3PValueDecoder makes of a buffer, how much of it is consumed, and that what is
   serialized decodes to the same values. *)
EXTENDS CborBytes
VARIABLES live,          \* is there a buffer?
          buf, last
vars == <<live, buf, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Obs == <<<<Len(buf)>>>>

(* A decoded value is a list of nodes.  A node is <<keyed, length of key>> \o key \o <<class, length>> \o content:
   classes 1 integer (sign, argument), 2 bytes, 3 text, 4 bool, 5 nothing, 6 float, 7 double, 8 nested pairs (their nodes),
   9 vector (type code, raw elements). *)
Plain(class, content) == <<0, 0, class, Len(content)>> \o content
Keyed(key, node) == IF node[1] = 1 THEN <<1, Len(key)>> \o key \o SubSeq(node, 3 + node[2], Len(node))
                    ELSE <<1, Len(key)>> \o key \o Drop(node, 2)
VecSize(t) == CASE t \in {58, 59} -> 3 [] t \in {60, 61} -> 6 [] t \in {56, 62, 63} -> 12 [] t = 57 -> 24 [] OTHER -> 0
VecTag(t) == CASE t = 56 -> 85 [] t = 57 -> 86 [] t = 58 -> 72 [] t = 59 -> 64 [] t = 60 -> 77 [] t = 61 -> 69 [] t = 62 -> 78 [] t = 63 -> 70
Fail == [st |-> "fail"]
Open == [st |-> "open"]      \* left open here
Ok(nodes, next) == [st |-> "ok", nodes |-> nodes, next |-> next]
Have(b, i, v) == Small(v) /\ i + Num(v) - 1 <= Len(b)
Count(b, v) == IF Small(v) THEN MinI(Num(v), Len(b) + 1) ELSE Len(b) + 1

RECURSIVE DecAt(_, _), Elems(_, _, _, _), Pairs(_, _, _, _)
\* the item at index i
DecAt(b, i) ==
  LET h == HeadAt(b, i) IN
  IF h.st = "more" THEN Fail
  ELSE IF h.st = "bad" THEN (IF h.major = 7 THEN [st |-> "skip", next |-> i + 1] ELSE Fail)
  ELSE CASE h.major = 0 -> Ok(<<Plain(1, <<0>> \o h.arg)>>, h.next)
         [] h.major = 1 -> IF h.arg[4] > 32767 THEN Fail ELSE Ok(<<Plain(1, <<1>> \o h.arg)>>, h.next)
         [] h.major \in {2, 3} -> IF ~Have(b, h.next, h.arg) THEN Fail
              ELSE LET p == SubSeq(b, h.next, h.next + Num(h.arg) - 1) IN Ok(<<Plain(h.major, IF h.major = 3 THEN CText(p) ELSE p)>>, h.next + Len(p))
         [] h.major = 4 -> IF h.arg = Zero4 THEN Fail ELSE Elems(b, h.next, Count(b, h.arg), <<>>)
         [] h.major = 5 -> IF h.arg = Zero4 THEN Fail ELSE Pairs(b, h.next, Count(b, h.arg), <<>>)
         [] h.major = 6 -> IF h.arg[2] # 0 \/ h.arg[3] # 0 \/ h.arg[4] # 0 \/ Hi(h.arg[1]) # 233 THEN Fail
              ELSE LET t == Lo(h.arg[1])  g == HeadAt(b, h.next)  x == DecAt(b, h.next + 2) IN
                   IF VecSize(t) = 0 THEN Open
                   ELSE IF g.st = "more" THEN Fail
                   ELSE IF g.st = "bad" \/ g.major # 6 \/ g.minor # 24 THEN Open
                   ELSE IF g.arg[1] # VecTag(t) THEN Open
                   ELSE IF x.st # "ok" THEN (IF x.st = "open" THEN Open ELSE Fail)
                   ELSE IF x.nodes[1][3] # 2 \/ Len(x.nodes) # 1 \/ x.nodes[1][1] = 1 THEN Open
                   ELSE IF x.nodes[1][4] # VecSize(t) THEN Fail
                   ELSE Ok(<<Plain(9, <<t>> \o Drop(x.nodes[1], 4))>>, x.next)
         [] h.major = 7 ->
              CASE h.minor \in {20, 21} -> Ok(<<Plain(4, <<h.minor - 20>>)>>, h.next)
                [] h.minor \in {22, 23} -> Ok(<<Plain(5, <<>>)>>, h.next)
                [] h.minor = 26 -> Ok(<<Plain(6, <<h.arg[1], h.arg[2]>>)>>, h.next)
                [] h.minor = 27 -> Ok(<<Plain(7, h.arg)>>, h.next)
                [] OTHER -> [st |-> "skip", next |-> h.next]
\* the elements of an array become one list
Elems(b, i, n, nodes) ==
  IF n = 0 THEN Ok(nodes, i)
  ELSE LET x == DecAt(b, i) IN IF x.st = "ok" THEN Elems(b, x.next, n - 1, nodes \o x.nodes) ELSE IF x.st = "open" THEN Open ELSE Fail
\* the pairs of a map; a value that is itself pairs is nested, further values of an array trail behind the pair
Pairs(b, i, n, nodes) ==
  IF n = 0 THEN Ok(nodes, i)
  ELSE LET h == HeadAt(b, i) IN
       IF h.st # "ok" THEN Fail
       ELSE IF h.major # 3 THEN Fail
       ELSE IF ~Have(b, h.next, h.arg) THEN Fail
       ELSE LET key == CText(SubSeq(b, h.next, h.next + Num(h.arg) - 1))
                x == DecAt(b, h.next + Num(h.arg)) IN
            IF x.st # "ok" THEN (IF x.st = "open" THEN Open ELSE Fail)
            ELSE IF x.nodes[1][1] = 0 /\ x.nodes[1][3] = 5 THEN Fail      \* nothing is no value for a pair
            ELSE LET new == IF x.nodes[1][1] = 1 THEN LET f == Flat(x.nodes) IN <<<<1, Len(key)>> \o key \o <<8, Len(f)>> \o f>>
                            ELSE <<Keyed(key, x.nodes[1])>> \o Tail(x.nodes) IN
                 Pairs(b, x.next, n - 1, nodes \o new)
Dec(b) == DecAt(b, 1)

New == /\ live' = 1 /\ buf' = <<>> /\ Res("new", <<>>, <<>>, <<>>)
Feed(d) == /\ buf' = buf \o d /\ UNCHANGED live /\ Res("feed", <<>>, <<d>>, <<>>)
\* the next value is taken from the buffer, or nothing is; with consume, an item without value is skipped
Next(consume) ==
  LET x == Dec(buf) IN
  /\ x.st # "open" /\ UNCHANGED live
  /\ CASE x.st = "ok" -> buf' = Drop(buf, x.next - 1) /\ Res("next", <<consume>>, <<>>, <<1, Len(x.nodes)>> \o Flat(x.nodes))
       [] x.st = "skip" -> buf' = (IF consume = 1 THEN Drop(buf, x.next - 1) ELSE buf) /\ Res("next", <<consume>>, <<>>, <<0>>)
       [] OTHER -> buf' = buf /\ Res("next", <<consume>>, <<>>, <<0>>)
\* anything at all may be offered: no harm is done, no memory lost
Probe(d) == /\ UNCHANGED <<live, buf>> /\ Res("probe", <<>>, <<d>>, <<0>>)

\* ---- serialization: a value, or a list of pairs, given as nodes; only pairs with a key are written
NodeKey(n) == SubSeq(n, 3, 2 + n[2])
NodeClass(n) == n[3 + n[2]]
NodeBody(n) == Drop(n, 4 + n[2])
Written(nodes) == SelectSeq(nodes, LAMBDA n : n[2] > 0)
\* cut a flat sequence into nodes
RECURSIVE Cut(_)
Cut(f) == IF f = <<>> THEN <<>> ELSE LET len == 4 + f[2] + f[4 + f[2]] IN <<SubSeq(f, 1, len)>> \o Cut(Drop(f, len))
RECURSIVE Norm(_)
Norm(n) == IF NodeClass(n) # 8 THEN n ELSE LET f == Flat([i \in 1..Len(Written(Cut(NodeBody(n)))) |-> Norm(Written(Cut(NodeBody(n)))[i])]) IN
                                           <<1, n[2]>> \o NodeKey(n) \o <<8, Len(f)>> \o f
RECURSIVE EncVal(_, _), EncPairs(_)
EncVal(c, p) ==
  CASE c = 1 -> EncHead(p[1], Tail(p))
    [] c \in {2, 3} -> EncHead(c, LenLimbs(Len(p))) \o p
    [] c = 4 -> <<244 + p[1]>>
    [] c = 6 -> <<250, Hi(p[2]), Lo(p[2]), Hi(p[1]), Lo(p[1])>>
    [] c = 7 -> <<251, Hi(p[4]), Lo(p[4]), Hi(p[3]), Lo(p[3]), Hi(p[2]), Lo(p[2]), Hi(p[1]), Lo(p[1])>>
    [] c = 8 -> EncPairs(Cut(p))
    [] c = 9 -> <<217, 233, p[1], 216, VecTag(p[1])>> \o EncHead(2, LenLimbs(Len(p) - 1)) \o Tail(p)
EncPairs(nodes) == LET w == Written(nodes) IN
  EncHead(5, LenLimbs(Len(w))) \o Flat([i \in 1..Len(w) |-> EncHead(3, LenLimbs(w[i][2])) \o NodeKey(w[i]) \o EncVal(NodeClass(w[i]), NodeBody(w[i]))])
EncNodes(nodes) == IF nodes[1][1] = 1 THEN EncPairs(nodes) ELSE EncVal(NodeClass(nodes[1]), NodeBody(nodes[1]))
\* how the bytes e written for the nodes must read: <<outcome, bytes>>
SerOk(nodes, r) ==
  LET w == IF nodes[1][1] = 1 THEN Written(nodes) ELSE nodes IN
  IF w = <<>> THEN r = <<-1>>
  ELSE LET x == Dec(Tail(r)) IN r[1] = 0 /\ x.st = "ok" /\ x.next = Len(r) /\ x.nodes = [i \in 1..Len(w) |-> Norm(w[i])]
Ser(nodes, r) == /\ SerOk(nodes, r) /\ UNCHANGED <<live, buf>> /\ Res("ser", <<>>, nodes, r)
DoR(op, a, d, r) ==
  CASE op = "new" -> New
    [] op = "feed" -> Feed(d[1])
    [] op = "next" -> Next(a[1])
    [] op = "probe" -> Probe(d[1])
    [] op = "ser" -> Ser(d, r)
    [] OTHER -> FALSE
Do(op, a, d) == DoR(op, a, d, IF op # "ser" THEN <<>> ELSE IF d[1][1] = 1 /\ Written(d) = <<>> THEN <<-1>> ELSE <<0>> \o EncNodes(d))
Init == live = 0 /\ buf = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
