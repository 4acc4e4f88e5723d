---------------------------- MODULE UART ----------------------------
(* The UART adapter between its users, the line, and the accepter that receives what comes in.  Its rings hold what is on the way
   out (tx) and what has come in and nobody has taken yet (rx). *)
EXTENDS Util, TLC
VARIABLES tcap, rcap,      \* sizes of the rings
          pins,            \* <<can send, can receive>>, as wired
          hw,              \* what the platform's init and deinit return
          ready,           \* initialised
          rate, opts,      \* bitrate in force; options last given (<<>> if none)
          tx, rx,
          sink,            \* <<room announced, most it takes of one offer>>, <<>> if there is none
          came, now,       \* when something was last received; the clock (ms)
          last
vars == <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, sink, came, now, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
TxOk == ready /\ pins[1] = 1
RxOk == ready /\ pins[2] = 1
Room == tcap - Len(tx)
OBS == <<Bit(ready), Bit(TxOk), Bit(RxOk), Len(tx), Len(rx), Room>>
Obs == <<OBS, rate>>
NoRate == <<0, 0>>

New(t, r, p, q) == /\ t >= 1 /\ r >= 1 /\ tcap' = t /\ rcap' = r /\ pins' = <<p, q>> /\ hw' = <<0, 0>> /\ ready' = FALSE /\ rate' = NoRate /\ opts' = <<>>
                   /\ tx' = <<>> /\ rx' = <<>> /\ sink' = <<>> /\ came' = 0 /\ now' = 0 /\ Res("new", <<t, r, p, q>>, <<>>, <<0>>)
Hw(i, u) == hw' = <<i, u>> /\ UNCHANGED <<tcap, rcap, pins, ready, rate, opts, tx, rx, sink, came, now>> /\ Res("hw", <<i, u>>, <<>>, <<0>>)
\* with options (the bytes of the structure, the bitrate first) or, none given, with those it has
RateOf(o) == <<o[1] + 256 * o[2], o[3] + 256 * o[4]>>
InitU(o) == LET p == IF o = <<>> THEN opts ELSE o IN
           /\ p # <<>> /\ opts' = p /\ rate' = RateOf(p) /\ ready' = (hw[1] = 0)
           /\ UNCHANGED <<tcap, rcap, pins, hw, tx, rx, sink, came, now>> /\ Res("init", <<>>, <<o>>, <<hw[1]>>)
\* what has not gone out, or been taken, is discarded
Deinit == /\ UNCHANGED <<tcap, rcap, pins, hw, opts, sink, came, now>> /\ Res("deinit", <<>>, <<>>, <<hw[2]>>)
          /\ IF hw[2] = 0 THEN tx' = <<>> /\ rx' = <<>> /\ ready' = FALSE /\ rate' = NoRate ELSE UNCHANGED <<tx, rx, ready, rate>>
Reset == /\ UNCHANGED <<tcap, rcap, pins, hw, opts, sink, came, now>>
         /\ IF hw[2] = 0 THEN tx' = <<>> /\ rx' = <<>> /\ ready' = (hw[1] = 0) /\ rate' = NoRate ELSE UNCHANGED <<tx, rx, ready, rate>>
         /\ Res("reset", <<>>, <<>>, <<IF hw[2] = 0 /\ hw[1] = 0 THEN 0 ELSE -1>>)
Opts == UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, sink, came, now>> /\ opts # <<>> /\ Res("opts", <<>>, <<>>, opts)
\* ---- sending: as much as there is room for, from the front, and the caller is told how much (or keeps the rest)
Accepted(b) == IF TxOk THEN MinI(Len(b), Room) ELSE 0
Puts(b) == tx' = tx \o Take(b, Accepted(b)) /\ UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, rx, sink, came, now>>
Push(d) == LET b == Flat(d) IN
           Puts(b) /\ Res("push", <<>>, d, <<IF Accepted(b) = 0 THEN -1 ELSE IF Accepted(b) = Len(b) THEN 1 ELSE 0>> \o Drop(b, Accepted(b)))
\* write(), of a StringBuilder (0), a buffer (1), a string (2), a character (3)
Write(k, d) == LET b == Flat(d) IN
           /\ (k = 2 => ~HasElem(b, 0)) /\ (k = 3 => Len(b) = 1)
           /\ Puts(b) /\ Res("write", <<k>>, d, <<Accepted(b)>> \o (IF k = 0 THEN Drop(b, Accepted(b)) ELSE <<>>))
\* ---- receiving
ReadN(n) == /\ rx' = Drop(rx, MinI(n, Len(rx))) /\ UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, tx, sink, came, now>>
            /\ Res("readn", <<n>>, <<>>, <<MinI(n, Len(rx))>> \o Take(rx, MinI(n, Len(rx))))
\* behind what the StringBuilder holds already
ReadS(b) == /\ rx' = <<>> /\ UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, tx, sink, came, now>>
            /\ Res("reads", <<>>, <<b>>, <<Len(rx)>> \o b \o rx)
SetSink(room, burst) == /\ sink' = (IF room = -2 THEN <<>> ELSE <<room, burst>>)
                        /\ UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, came, now>> /\ Res("sink", <<room, burst>>, <<>>, <<0>>)
\* ---- poll: up to n bytes go out on the line, inc comes in (what does not fit is lost there), and what is waiting is offered to
\* the accepter; mid comes in while it is being offered.  The result: activity (-1 if the platform reports trouble), and then what
\* went out, what was offered and what the accepter took of it
Offered(r) == IF sink = <<>> \/ r = <<>> THEN 0 ELSE IF sink[1] < 0 THEN Len(r) ELSE MinI(sink[1], Len(r))
Taken(r) == MinI(Offered(r), IF sink = <<>> THEN 0 ELSE sink[2])
Poll(n, bad, inc, mid) ==
  LET up == ready
      out == IF TxOk THEN MinI(n, Len(tx)) ELSE 0
      in1 == IF RxOk THEN Take(inc, MinI(Len(inc), rcap - Len(rx))) ELSE <<>>
      r1 == rx \o in1
      of == Offered(r1)
      tk == Taken(r1)
      in2 == IF of = 0 THEN <<>> ELSE Take(mid, MinI(Len(mid), rcap - Len(r1))) IN
  /\ UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, sink, now>>
  /\ IF ~up \/ bad = 1 THEN UNCHANGED <<tx, rx, came>> /\ Res("poll", <<n, bad>>, <<inc, mid>>, <<IF bad = 1 THEN -1 ELSE 0>>)
     ELSE /\ tx' = Drop(tx, out) /\ rx' = Drop(r1, tk) \o in2
          /\ came' = (IF in1 # <<>> \/ in2 # <<>> THEN now ELSE came)
          /\ Res("poll", <<n, bad>>, <<inc, mid>>, <<Bit(out + Len(in1) + tk > 0), out>> \o Take(tx, out) \o <<of, tk>> \o Take(r1, tk))
\* ---- has it been silent for longer than the temporal break (50 ms)?
Tick(ms) == now' = now + ms /\ UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, sink, came>> /\ Res("tick", <<ms>>, <<>>, <<0>>)
Silent == UNCHANGED <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, sink, came, now>> /\ Res("silent", <<>>, <<>>, <<Bit(now - came > 50), came>>)
Do(op, a, d) == IF tcap = 0 /\ op # "new" THEN FALSE ELSE
  CASE op = "new" -> New(a[1], a[2], a[3], a[4]) [] op = "hw" -> Hw(a[1], a[2]) [] op = "init" -> InitU(d[1]) [] op = "deinit" -> Deinit
    [] op = "reset" -> Reset [] op = "opts" -> Opts [] op = "push" -> Push(d) [] op = "write" -> Write(a[1], d) [] op = "readn" -> ReadN(a[1])
    [] op = "reads" -> ReadS(d[1]) [] op = "sink" -> SetSink(a[1], a[2]) [] op = "poll" -> Poll(a[1], a[2], d[1], d[2])
    [] op = "tick" -> Tick(a[1]) [] op = "silent" -> Silent [] OTHER -> FALSE
Init == tcap = 0 /\ rcap = 0 /\ pins = <<0, 0>> /\ hw = <<0, 0>> /\ ready = FALSE /\ rate = NoRate /\ opts = <<>> /\ tx = <<>> /\ rx = <<>>
        /\ sink = <<>> /\ came = 0 /\ now = 0 /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
