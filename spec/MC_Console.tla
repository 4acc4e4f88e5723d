---- MODULE MC_Console ----
EXTENDS Console, Json
CONSTANTS Terms, Flags, Alpha, MaxLen, MaxPush, Setups, MaxBuf, MaxResp, MaxDepth
A == 97 B == 98
\* command "a" with one argument required and shortcut 'B'; command "b", which fails; command "aa", which prints by itself
Cmds == << [name |-> <<A>>, sc |-> 66, req |-> 1, kind |-> 0, ret |-> 0, say |-> <<49>>, help |-> <<104>>, usage |-> <<117>>],
           [name |-> <<B>>, sc |-> A, req |-> 0, kind |-> 0, ret |-> -1, say |-> <<50>>, help |-> <<>>, usage |-> <<>>],
           [name |-> <<A, A>>, sc |-> 0, req |-> 0, kind |-> 3, ret |-> 0, say |-> <<51>>, help |-> <<>>, usage |-> <<>>] >>
DefOp(i, how) == LET d == Cmds[i] IN Do("def", <<how, d.sc, d.req, d.kind, d.ret>>, <<d.name, d.help, d.usage, d.say>>)
\* setups: 1 plain; 2 echo, prompt, help on failure, failures in the history, short history, slow reader downstream
Strs == UNION {[1..n -> Alpha] : n \in 0..MaxPush}
MCNext ==
  IF c.max = 0 THEN \E s \in Setups : Do("new", <<MaxLen, IF s = 3 THEN 0 ELSE 1, IF s = 2 THEN 8 ELSE 9999, IF s = 2 THEN 4 ELSE 999>>, <<>>)
  ELSE IF Len(c.cmds) < 3 THEN \E how \in 0..(IF Len(c.cmds) = 0 THEN 2 ELSE 0) : DefOp(Len(c.cmds) + 1, how)
  ELSE \/ \E s \in Strs : Len(c.resp) <= MaxResp /\ Do("push", <<>>, IF Len(s) = 2 THEN <<<<s[1]>>, <<s[2]>>>> ELSE <<s>>)
       \/ \E t \in Terms : t # c.term /\ Do("term", <<t>>, <<>>)
       \/ \E i \in Flags, v \in 0..1 : c.fl[i] # v /\ Do("flag", <<i, v>>, <<>>)
       \/ \E n \in 0..MaxDepth : n # c.maxh /\ Do("depth", <<n>>, <<>>)
       \/ c.pstr = <<>> /\ 2 \in Flags /\ Do("pstr", <<>>, <<<<62>>>>)
       \/ c.hist # <<>> /\ Do("clear", <<>>, <<>>)
       \/ c.eff = 1 /\ c.room < 4 /\ Do("room", <<8, 4>>, <<>>)
       \/ c.resp # <<>> /\ Do("fetch", <<>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
Ready == c.max > 0 /\ Len(c.cmds) = 3
Bound == Len(c.buf) <= MaxBuf /\ Len(c.resp) <= 2 * MaxResp + 100 /\ Len(c.hist) <= MaxDepth
\* the state without what one operation produced; downstream room beyond what matters is one value
View == [c EXCEPT !.out = <<>>, !.calls = <<>>, !.room = IF @ > 100 THEN 999 ELSE @]
\* ---- what C25 says
\* however the input is cut into pieces, the same commands run with the same arguments, and the same text remains pending
Settled == TermOf(c.term) = <<>> \/ Find(c.buf, TermOf(c.term), 1) = 0   \* no line has become complete by changing the terminator
Whole(s) == Feed(Fresh, s)
Inv_Pieces == Ready /\ Settled => \A s \in Strs : \A k \in 0..Len(s) :
   LET w == Whole(s) x == Feed(Whole(Take(s, k)), Drop(s, k)) IN
   Len(c.buf) + Len(s) <= c.max => x.calls = w.calls /\ x.buf = w.buf /\ x.hist = w.hist /\ (c.eff = 0 /\ c.fl[1] = 0 => x.resp = w.resp)
\* nothing runs before its terminator arrives, and no more commands run than terminators have arrived
Count(s, t) == LET RECURSIVE N(_)
                   N(i) == IF i = 0 \/ Find(s, t, i) = 0 THEN 0 ELSE 1 + N(Find(s, t, i) + Len(t)) IN N(1)
Inv_Terminated == Ready /\ Settled => \A s \in Strs : LET x == Whole(s) t == TermOf(c.term) IN
   /\ t = <<>> \/ ~HasElem(s, t[Len(t)]) => x.calls = <<>> /\ x.hist = c.hist
   /\ t # <<>> /\ ~HasElem(s, BS) => Len(x.calls) <= Count(c.buf \o s, t)
\* a backspace takes back exactly the last pending character, and never an executed line
Inv_Backspace == Ready /\ Settled => \A s \in Strs : \A ch \in Alpha \ {BS, LF, CR, 0} :
   Len(c.buf) + Len(s) < c.max /\ ~(c.term = 3 /\ s # <<>> /\ s[Len(s)] = CR) =>
   LET x == Whole(s) y == Whole(s \o <<ch, BS>>) IN x.buf = y.buf /\ x.calls = y.calls /\ x.hist = y.hist
Inv_Bounds == Ready => Len(c.buf) <= c.max /\ Len(c.hist) <= c.maxh
\* a command is called by its own name or shortcut, with at least the arguments it requires
Prop_Calls == [][(last'.op = "push") => \A i \in 1..Len(c'.calls) :
   LET k == c'.calls[i][1] IN k \in 1..Len(c.cmds) /\ Cardinality({j \in 2..Len(c'.calls[i]) : c'.calls[i][j] < 0}) >= c.cmds[k].req]_vars
\* output is never invented: what is delivered came from the responses, first in first out
Prop_Out == [][(last'.op \in {"push", "print", "prompt"} /\ Ready /\ c.resp # <<>> /\ c'.out # <<>>) => IsPre(Take(c.resp, Len(c'.out)), c'.out)]_vars
Prop_Refused == [][(last'.op = "push" /\ Ready /\ c.eff = 0) => IsPre(c.resp, c'.resp) /\ c'.out = <<>>]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson([c' EXCEPT !.out = <<>>, !.calls = <<>>, !.room = IF @ > 100 THEN 999 ELSE @])>>)
====
