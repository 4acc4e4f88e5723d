---- MODULE MC_UART ----
EXTENDS UART, Json
CONSTANTS Full, MaxSent
VARIABLES sent, wire,      \* history: what was accepted for sending since the last deinit, and what has gone out
          heard, seen      \* what came in off the line and fit, and what was handed on (read or taken)
hist == <<sent, wire, heard, seen>>
O1 == <<0, 150, 0, 0, 1, 8, 0, 0, 0, 19, 17, 0>>
Small == { <<>>, <<1>>, <<2, 3>> } \cup (IF Full = 1 THEN {<<1, 2, 3>>} ELSE {})
Step == IF tcap = 0 THEN \E p \in {<<2, 2, 1, 1>>} \cup (IF Full = 1 THEN {<<1, 3, 1, 1>>, <<2, 1, 0, 1>>, <<2, 1, 1, 0>>} ELSE {}) : Do("new", p, <<>>)
        ELSE \/ (opts = <<>> /\ Do("init", <<>>, <<O1>>))
             \/ (opts # <<>> /\ (Do("init", <<>>, <<<<>>>>) \/ Do("opts", <<>>, <<>>)))
             \/ Do("deinit", <<>>, <<>>) \/ Do("reset", <<>>, <<>>)
             \/ \E w \in IF Full = 1 THEN {<<0, 0>>, <<-1, 0>>, <<0, -1>>} ELSE {<<0, 0>>, <<-1, -1>>} : hw # w /\ Do("hw", w, <<>>)
             \/ (Len(sent) < MaxSent /\ (\E b \in Small : Do("push", <<>>, <<b>>) \/ (b # <<>> /\ Do("write", <<1>>, <<b>>))
                                      \/ Do("push", <<>>, <<<<1>>, <<2, 3>>>>) \/ Do("write", <<0>>, <<<<2, 3>>>>) \/ Do("write", <<3>>, <<<<0>>>>)))
             \/ \E n \in 0..2 : Do("readn", <<n>>, <<>>)
             \/ Do("reads", <<>>, <<<<9>>>>)
             \/ \E s \in {<<-2, 0>>, <<1, 2>>, <<3, 1>>} \cup (IF Full = 1 THEN {<<-1, 3>>, <<0, 1>>, <<2, 0>>} ELSE {}) : (s[1] # -2 => sink # s) /\ (s[1] = -2 => sink # <<>>) /\ Do("sink", s, <<>>)
             \/ (Len(heard) < MaxSent /\ \E n \in {0, 1, 2}, i \in {<<>>, <<5, 6>>}, m \in {<<>>, <<7>>} : (Full = 1 \/ (n = 1 \/ i = <<>>)) /\ Do("poll", <<n, 0>>, <<i, m>>))
             \/ (Len(heard) < MaxSent /\ Do("poll", <<1, 1>>, <<<<5>>, <<>>>>))
Op == last'.op
Lost == Op = "new" \/ (Op \in {"deinit", "reset"} /\ hw[2] = 0)
PollUp == Op = "poll" /\ Len(last'.r) > 1
MCNext == /\ Step
          /\ sent' = (IF Lost THEN <<>> ELSE IF Op \in {"push", "write"} THEN sent \o Take(Flat(last'.d), Len(tx') - Len(tx)) ELSE sent)
          /\ wire' = (IF Lost THEN <<>> ELSE IF PollUp THEN wire \o SubSeq(last'.r, 3, 2 + last'.r[2]) ELSE wire)
          /\ heard' = (IF Lost THEN <<>> ELSE IF PollUp
                       THEN LET in1 == IF RxOk THEN Take(last'.d[1], rcap - Len(rx)) ELSE <<>>
                                in2 == IF Offered(rx \o in1) = 0 THEN <<>> ELSE Take(last'.d[2], rcap - Len(rx \o in1)) IN heard \o in1 \o in2
                       ELSE heard)
          /\ seen' = (IF Lost THEN <<>> ELSE IF PollUp THEN seen \o SubSeq(last'.r, 5 + last'.r[2], Len(last'.r))
                      ELSE IF Op = "readn" THEN seen \o Drop(last'.r, 1) ELSE IF Op = "reads" THEN seen \o Drop(last'.r, 2) ELSE seen)
MCInit == Init /\ sent = <<>> /\ wire = <<>> /\ heard = <<>> /\ seen = <<>>
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, sink, came, now, hist>>
EView == <<tcap, rcap, pins, hw, ready, rate, opts, tx, rx, sink, came, now>>
\* what is accepted goes out once, in order, and what comes in is handed on once, in order
Inv_Out == sent = wire \o tx /\ Len(tx) <= tcap
Inv_In == heard = seen \o rx /\ Len(rx) <= rcap
\* nothing is accepted by an adapter that cannot send
Prop_Mute == [][(Op \in {"push", "write"} /\ ~TxOk) => tx' = tx]_vars
\* whoever sends is told what was taken: the remainder is the rest of it
Prop_Told == [][Op = "push" => Take(Flat(last'.d), Len(tx') - Len(tx)) \o Drop(last'.r, 1) = Flat(last'.d)]_vars
Prop_Write == [][Op = "write" => last'.r[1] = Len(tx') - Len(tx)]_vars
Dump == PrintT(<<"@E", ToJson(EView), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<tcap', rcap', pins', hw', ready', rate', opts', tx', rx', sink', came', now'>>)>>)
ENext == Step /\ UNCHANGED hist
ESpec == MCInit /\ [][ENext]_<<vars, hist>>
====
