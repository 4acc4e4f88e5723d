------------------------------ MODULE Console ------------------------------
(* ParsingConsole: bytes arrive in pieces of any size, are edited by backspaces, gathered into lines, and each complete line runs one
   command.  What a command answers goes, in order, to the accepter downstream; what that refuses waits for it. *)
EXTENDS Text, ConsoleText, TLC
VARIABLES c, last
vars == <<c, last>>
\* c: max, term: limits and terminator; buf: pending input; resp: responses not yet taken; hist, maxh: history; fl: the flags
\*    echo, prompt, force, history-of-failures, help-on-fail; pstr: the prompt; cmds: the definitions; eff, room, burst: downstream
\*    out, calls: what was delivered, and what was called, by the present operation

CR == 13
LF == 10
BS == 8
TermOf(t) == CASE t = 0 -> <<0>> [] t = 1 -> <<CR>> [] t = 2 -> <<LF>> [] t = 3 -> <<CR, LF>> [] OTHER -> <<>>
TermName(t) == CASE t = 0 -> T_ZEROBYTE [] t = 1 -> T_CR [] t = 2 -> T_LF [] t = 3 -> T_CRLF [] OTHER -> <<>>
Upper(b) == IF b \in 97..122 THEN b - 32 ELSE b
SameWord(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Upper(x[i]) = Upper(y[i])
Trim(s) == RTrim(LTrim(s))
UpToNul(s) == IF HasElem(s, 0) THEN Take(s, IndexOf(s, 0) - 1) ELSE s
\* where t first occurs in s, or 0
RECURSIVE Find(_, _, _)
Find(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE Find(s, t, i + 1)
Pad(s, n) == s \o [i \in 1..MaxI(0, n - Len(s)) |-> 32]
Header(s) == T_HdrA \o s \o T_HdrB
RECURSIVE Cull(_, _)
Cull(h, m) == IF Len(h) > m THEN Cull(Tail(h), m) ELSE h

\* ---------------------------------------------------------------- commands
\* a definition: name, shortcut (0: none), arguments required, kind, what it answers and returns, help and usage texts
Match(cs, P(_)) == IF \E i \in 1..Len(cs) : P(cs[i]) THEN CHOOSE i \in 1..Len(cs) : P(cs[i]) /\ \A j \in 1..(i - 1) : ~P(cs[j]) ELSE 0
Lookup(cs, w) ==     \* by name, ignoring case; else by shortcut, minding it
  LET n == Match(cs, LAMBDA d : SameWord(d.name, w)) IN
  IF n # 0 \/ Len(w) # 1 THEN n ELSE Match(cs, LAMBDA d : d.sc = w[1])
Details(d) == Header(T_HelpOf \o d.name) \o d.help \o T_Usage \o d.usage \o <<LF>>
NotSupported(w) == T_CmdA \o w \o T_NotSup
Widest(cs) == LET RECURSIVE W(_)
                  W(i) == IF i = 0 THEN 0 ELSE MaxI(Len(cs[i].name), W(i - 1)) IN W(Len(cs))
HelpAll(cs) == LET w == Widest(cs) + 2
                   RECURSIVE H(_)
                   H(i) == IF i > Len(cs) THEN <<>>
                           ELSE Pad(cs[i].name, w) \o <<32>> \o (IF cs[i].sc = 0 THEN <<32, 32, 32>> ELSE <<40, cs[i].sc, 41>>)
                                \o <<32, 32, 32>> \o cs[i].help \o <<LF>> \o H(i + 1)
               IN Header(T_Help) \o H(1)
HelpFor(cs, w) == LET k == Lookup(cs, w) IN IF k # 0 THEN Details(cs[k]) ELSE NotSupported(w)
HistText(h) == LET RECURSIVE H(_)
                   H(i) == IF i > Len(h) THEN <<>> ELSE <<9>> \o Dec(i - 1) \o <<58, 32, 32>> \o h[i] \o <<LF>> \o H(i + 1)
               IN Header(T_Hist) \o H(1)

\* ---------------------------------------------------------------- output
Say(x, s) == [x EXCEPT !.resp = @ \o s]
Relay(x) ==     \* the accepter downstream takes what it can; if it took a part, the rest is discarded
  LET n == MinI(MinI(Len(x.resp), x.room), x.burst) IN
  IF x.eff = 0 \/ n <= 0 THEN x
  ELSE [x EXCEPT !.out = @ \o Take(x.resp, n), !.room = @ - n, !.resp = <<>>]

\* ---------------------------------------------------------------- the console's own commands
Val(s) == IF IsHexTok(s) THEN LET h == HexPrefix(Take(Drop(s, 2), 8)) IN HexLimbs(h, 2)[1] ELSE Atoi(s)
Arg(as, i) == IF i <= Len(as) THEN as[i] ELSE <<>>
FlagNo(w) == CASE SameWord(w, W_echo) -> 1 [] SameWord(w, W_prompt) -> 2 [] SameWord(w, W_force) -> 3 [] SameWord(w, W_hof) -> 5 [] OTHER -> 0
FlagText(i, v) == CASE i = 1 -> T_Echo \o (IF v = 1 THEN T_En ELSE T_Dis) \o T_Abled
                    [] i = 2 -> T_Prompt \o (IF v = 1 THEN T_En ELSE T_Dis) \o T_Abled
                    [] i = 3 -> T_Force \o (IF v = 1 THEN T_En ELSE T_Dis) \o T_Abled
                    [] i = 5 -> T_Hof \o (IF v = 1 THEN T_Yes ELSE T_No)
SetMaxH(x, n) == [x EXCEPT !.maxh = n, !.hist = Cull(@, n)]
Conf(x, as) ==     \* <<the console afterwards, the callback's return value>>
  LET w == Trim(Arg(as, 1)) sub == Trim(Arg(as, 2)) more == Len(as) > 1 fn == FlagNo(w) IN
  CASE fn # 0 ->
         LET y == IF more THEN [x EXCEPT !.fl[fn] = Bit(Val(as[2]) # 0)] ELSE x IN <<Say(y, FlagText(fn, y.fl[fn])), 0>>
    [] SameWord(w, W_history) ->
         IF ~more THEN <<Say(x, HistText(x.hist)), 0>>
         ELSE IF SameWord(sub, W_clear) THEN <<Say([x EXCEPT !.hist = <<>>], T_Cleared), 0>>
         ELSE IF SameWord(sub, W_depth) THEN
           LET y == IF Len(as) > 2 THEN SetMaxH(x, Val(as[3]) % 256) ELSE x IN <<Say(y, T_Depth \o Dec(y.maxh) \o <<LF>>), 0>>
         ELSE IF SameWord(sub, W_logerrors) THEN
           LET y == IF Len(as) > 2 THEN [x EXCEPT !.fl[4] = Bit(Val(as[3]) # 0)] ELSE x IN
           <<Say(y, T_HistWord \o (IF y.fl[4] = 1 THEN T_In ELSE T_Ex) \o T_Cludes), 0>>
         ELSE <<Say(x, T_Valid), 0>>
    [] SameWord(w, W_rxterm) ->
         LET v == IF more THEN Val(as[2]) ELSE 0
             y == IF more /\ v \in 0..3 THEN [x EXCEPT !.term = v] ELSE x IN
         <<Say(y, T_Rx \o TermName(y.term) \o <<LF>> \o (IF more /\ v \notin 0..3 THEN T_Opts ELSE <<>>)), 0>>
    [] OTHER -> <<x, -1>>

\* ---------------------------------------------------------------- execution
Callback(x0, k, as) ==     \* <<the console afterwards, the return value>>
  LET d == x0.cmds[k]
      x == [x0 EXCEPT !.calls = Append(@, <<k>> \o Flat([i \in 1..Len(as) |-> <<-Len(as[i])>> \o as[i]]))] IN
  CASE d.kind = 0 -> <<Say(x, d.say), d.ret>>
    [] d.kind = 1 -> <<Say(x, IF as = <<>> THEN HelpAll(x.cmds) ELSE HelpFor(x.cmds, Trim(as[1]))), 0>>
    [] d.kind = 2 -> Conf(x, as)
    [] d.kind = 3 -> <<Relay(Say(x, d.say)), d.ret>>          \* prints to the console by itself
Run(x, line) ==     \* <<the console afterwards, whether the line counts as a success>>
  LET toks == Tok(line, <<32>>, <<>>)
      w == Trim(Head(toks))
      k == Lookup(x.cmds, w)
      as == Tail(toks) IN
  IF k = 0 THEN <<Say(x, NotSupported(w)), FALSE>>
  ELSE IF Len(as) < x.cmds[k].req
  THEN <<Say(x, T_CmdA \o x.cmds[k].name \o T_Requires \o Dec(x.cmds[k].req) \o T_Only \o Dec(Len(as)) \o T_Provided \o Details(x.cmds[k])), FALSE>>
  ELSE LET z == Callback(Say(x, <<LF>>), k, as) IN
       <<IF z[2] # 0 /\ z[1].fl[5] = 1 THEN Relay(Say(z[1], Details(x.cmds[k]))) ELSE z[1], TRUE>>
DoLine(x, line) ==
  LET z == Run(x, line)
      y == IF z[2] \/ z[1].fl[4] = 1 THEN [z[1] EXCEPT !.hist = Cull(Append(@, line), z[1].maxh)] ELSE z[1] IN
  IF y.fl[2] = 1 /\ y.pstr # <<>> THEN Say(y, <<LF>> \o y.pstr[1]) ELSE y
RECURSIVE Lines(_)
Lines(x) ==
  LET t == TermOf(x.term) p == IF t = <<>> THEN 0 ELSE Find(x.buf, t, 1) IN
  IF p = 0 THEN x
  ELSE LET line == Trim(UpToNul(Take(x.buf, p - 1)))
           y == [x EXCEPT !.buf = Drop(@, p - 1 + Len(t))] IN
       Lines(IF line = <<>> THEN y ELSE DoLine(y, line))
Process(x) == Relay(IF Len(x.buf) > x.max THEN [x EXCEPT !.buf = <<>>] ELSE Lines(x))
EchoOf(x, s) == IF x.fl[1] = 1 THEN Relay(Say(x, s)) ELSE x
RECURSIVE Feed(_, _)
Feed(x, s) ==
  IF s = <<>> THEN x
  ELSE IF Head(s) = BS THEN LET y == EchoOf(x, <<BS, 32, BS>>) IN Feed([y EXCEPT !.buf = Take(@, Len(@) - 1)], Tail(s))
  ELSE LET i == IndexOf(s, BS)
           n == IF i = 0 THEN Len(s) ELSE i - 1
           y == EchoOf(x, Take(s, n)) IN
       Feed(Process([y EXCEPT !.buf = @ \o Take(s, n)]), Drop(s, n))

\* ---------------------------------------------------------------- operations
Obs == <<c.out, <<Len(c.resp) % 256, Len(c.hist) % 256, c.maxh, c.term, IF c.eff = 0 THEN -1 ELSE c.room>>, c.fl, HistText(c.hist)>> \o c.calls
Fresh == [c EXCEPT !.out = <<>>, !.calls = <<>>]
Set(x, op, a, d, r) == c' = x /\ last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Nil == [max |-> 0, term |-> 2, buf |-> <<>>, resp |-> <<>>, hist |-> <<>>, maxh |-> 8, fl |-> <<0, 0, 0, 0, 0>>, pstr |-> <<>>, cmds |-> <<>>,
        eff |-> 0, room |-> 0, burst |-> 0, out |-> <<>>, calls |-> <<>>]
New(m, e, room, burst) == Set([Nil EXCEPT !.max = m, !.eff = e, !.room = room, !.burst = burst], "new", <<m, e, room, burst>>, <<>>, <<IF m < 8 THEN -1 ELSE 0>>)
Define(how, sc, req, kind, ret, name, help, usage, say) ==
  Set([Fresh EXCEPT !.cmds = Append(@, [name |-> name, sc |-> sc, req |-> req, kind |-> kind, ret |-> ret, say |-> say, help |-> help, usage |-> usage])],
      "def", <<how, sc, req, kind, ret>>, <<name, help, usage, say>>, <<0>>)
Push(d) == Set(Feed(Fresh, Flat(d)), "push", <<>>, d, <<1>>)
PrintLog(s) == Set(Relay(Say(Fresh, s)), "print", <<>>, <<s>>, <<0>>)
Prompt == Set(IF c.pstr = <<>> THEN Fresh ELSE Relay(Say(Fresh, c.pstr[1])), "prompt", <<>>, <<>>, <<0>>)
Fetch == Set([Fresh EXCEPT !.resp = <<>>], "fetch", <<>>, <<>>, c.resp)
HelpTxt == Set(Fresh, "help", <<>>, <<>>, HelpAll(c.cmds))
HelpOne(w) == Set(Fresh, "helpfor", <<>>, <<w>>, HelpFor(c.cmds, w))
Flag(i, v) == Set([Fresh EXCEPT !.fl[i] = v], "flag", <<i, v>>, <<>>, <<0>>)
Term(t) == Set([Fresh EXCEPT !.term = t], "term", <<t>>, <<>>, <<0>>)
Depth(n) == Set(SetMaxH(Fresh, n), "depth", <<n>>, <<>>, <<0>>)
Clear == Set([Fresh EXCEPT !.hist = <<>>], "clear", <<>>, <<>>, <<0>>)
PStr(d) == Set([Fresh EXCEPT !.pstr = d], "pstr", <<>>, d, <<0>>)
Room(n, b) == Set([Fresh EXCEPT !.room = n, !.burst = b], "room", <<n, b>>, <<>>, <<0>>)
Eff(e) == Set([Fresh EXCEPT !.eff = e], "eff", <<e>>, <<>>, <<0>>)
End == Set(Nil, "end", <<>>, <<>>, <<0>>)     \* destroyed: no memory remains allocated
Do(op, a, d) ==
  CASE op = "new" -> New(a[1], a[2], a[3], a[4])
    [] op = "def" -> Define(a[1], a[2], a[3], a[4], a[5], d[1], d[2], d[3], d[4])
    [] op = "push" -> Push(d)           [] op = "print" -> PrintLog(d[1])     [] op = "prompt" -> Prompt
    [] op = "fetch" -> Fetch            [] op = "help" -> HelpTxt          [] op = "helpfor" -> HelpOne(d[1])
    [] op = "flag" -> Flag(a[1], a[2])  [] op = "term" -> Term(a[1])       [] op = "depth" -> Depth(a[1])
    [] op = "clear" -> Clear            [] op = "pstr" -> PStr(d)          [] op = "room" -> Room(a[1], a[2])
    [] op = "eff" -> Eff(a[1])          [] op = "end" -> End
    [] OTHER -> FALSE
Init == c = Nil /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
============================================================================
