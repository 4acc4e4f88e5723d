------------------------------ MODULE TypePipe ------------------------------
(* C3PTypePipeSource writes values, each wholly or not at all, into a wire with announced room; the wire is cut anyhow and carried to
   C3PTypePipeSink, which delivers each value that is complete and claims exactly its bytes.
   Values, their encoding and what bytes decode to are those of CborValue. *)
EXTENDS CborBytes
VARIABLES on,          \* there are a source and a sink
          link,        \* 0 source without accepter, 1 source -> wire, 2 source -> sink directly
          room,        \* what the wire still takes
          wire,        \* bytes on the wire
          up,          \* bytes the carrier holds for the sink
          max, cb,     \* the sink's window; does it deliver?
          sent, taken, \* bytes counted at the source and at the sink
          got,         \* what the last operation delivered
          last
vars == <<on, link, room, wire, up, max, cb, sent, taken, got, last>>
V == INSTANCE CborValue WITH live <- on, buf <- up
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Obs == <<wire, up, <<room, sent, taken>>, got>>

New(m, c, l, rm) == /\ on' = 1 /\ link' = l /\ room' = rm /\ wire' = <<>> /\ up' = <<>> /\ max' = m /\ cb' = c /\ sent' = 0 /\ taken' = 0 /\ got' = <<>>
                    /\ Res("new", <<m, c, l, rm>>, <<>>, <<0>>)
\* what the sink makes of a buffer: <<bytes claimed, nodes of the values delivered>>; unknown: left open
RECURSIVE Eat(_, _, _)
Eat(b, win, acc) ==
  LET x == V!Dec(Take(b, win)) IN
  IF x.st = "open" THEN [st |-> "open"]
  ELSE IF x.st # "ok" THEN [st |-> "ok", rest |-> b, out |-> acc]
  ELSE Eat(Drop(b, x.next - 1), win, acc \o <<1, Len(x.nodes)>> \o Flat(x.nodes))
Eaten(b) == Eat(b, MinI(max, Len(b)), <<>>)

\* pushing the value given by the nodes, whose encoding is e: what a correct encoding is, is said by V!SerOk.  nat: through which overload
Value(nat, nodes, e) ==
  /\ V!SerOk(nodes, <<0>> \o e)
  /\ UNCHANGED <<on, link, up, max, cb>>
  /\ LET x == IF link = 2 THEN Eaten(e) ELSE [st |-> "ok", rest |-> e, out |-> <<>>]
         fits == IF link = 1 THEN Len(e) <= room ELSE link = 2 /\ Len(e) <= max /\ cb = 1 IN
     /\ x.st = "ok"
     /\ (link = 2 /\ fits => x.rest = <<>>)
     /\ wire' = (IF fits /\ link = 1 THEN wire \o e ELSE wire) /\ room' = (IF fits /\ link = 1 THEN room - Len(e) ELSE room)
     /\ sent' = (IF fits THEN sent + Len(e) ELSE sent)
     /\ taken' = (IF fits /\ link = 2 THEN taken + Len(e) ELSE taken)
     /\ got' = (IF fits THEN x.out ELSE <<>>)
     /\ Res("value", <<nat>>, nodes, <<IF fits THEN 0 ELSE -1>> \o e)
Room(n) == room' = n /\ got' = <<>> /\ UNCHANGED <<on, link, wire, up, max, cb, sent, taken>> /\ Res("room", <<n>>, <<>>, <<0>>)
Link(l) == link' = l /\ got' = <<>> /\ UNCHANGED <<on, room, wire, up, max, cb, sent, taken>> /\ Res("link", <<l>>, <<>>, <<0>>)
\* bytes not written as values: through the source (which lets them pass), or from elsewhere straight to the carrier
Pass(d) == /\ got' = <<>> /\ UNCHANGED <<on, link, up, max, cb, sent, taken>> /\ link # 2
           /\ LET n == IF link = 1 THEN MinI(room, Len(d)) ELSE 0 IN
              /\ wire' = wire \o Take(d, n) /\ room' = room - n
              /\ Res("pass", <<>>, <<d>>, <<IF n = 0 THEN -1 ELSE IF n = Len(d) THEN 1 ELSE 0, Len(d) - n, IF link = 1 THEN room ELSE -1>>)
Feed(d) == up' = up \o d /\ got' = <<>> /\ UNCHANGED <<on, link, room, wire, max, cb, sent, taken>> /\ Res("feed", <<>>, <<d>>, <<0>>)
Carry(n) == /\ up' = up \o Take(wire, n) /\ wire' = Drop(wire, n) /\ got' = <<>> /\ UNCHANGED <<on, link, room, max, cb, sent, taken>>
            /\ Res("carry", <<n>>, <<>>, <<0>>)
Discard == up' = <<>> /\ got' = <<>> /\ UNCHANGED <<on, link, room, wire, max, cb, sent, taken>> /\ Res("discard", <<>>, <<>>, <<0>>)
Push == /\ UNCHANGED <<on, link, room, wire, max, cb, sent>>
        /\ IF up = <<>> THEN UNCHANGED <<up, taken>> /\ got' = <<>> /\ Res("push", <<>>, <<>>, <<-99>>)
           ELSE IF cb = 0 THEN UNCHANGED <<up, taken>> /\ got' = <<>> /\ Res("push", <<>>, <<>>, <<-1>>)
           ELSE LET x == Eaten(up) IN
                /\ x.st = "ok"
                /\ up' = x.rest /\ got' = x.out /\ taken' = taken + Len(up) - Len(x.rest)
                /\ (\E r \in (IF x.rest = <<>> THEN {1} ELSE IF x.rest = up THEN {0, -1} ELSE {0}) : Res("push", <<>>, <<>>, <<r>>))   \* nothing taken: either answer
DoR(op, a, d, e) ==
  CASE op = "new" -> New(a[1], a[2], a[3], a[4])
    [] op = "value" -> Value(a[1], d, e)
    [] op = "room" -> Room(a[1]) [] op = "link" -> Link(a[1]) [] op = "pass" -> Pass(d[1]) [] op = "feed" -> Feed(d[1])
    [] op = "carry" -> Carry(a[1]) [] op = "discard" -> Discard [] op = "push" -> Push [] OTHER -> FALSE
Do(op, a, d) == DoR(op, a, d, IF op = "value" THEN V!EncNodes(d) ELSE <<>>)
Init == /\ on = 0 /\ link = 0 /\ room = 0 /\ wire = <<>> /\ up = <<>> /\ max = 0 /\ cb = 0 /\ sent = 0 /\ taken = 0 /\ got = <<>>
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
