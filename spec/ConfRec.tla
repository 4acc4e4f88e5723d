---------------------------- MODULE ConfRec ----------------------------
(* A list of enumerated definitions (value, flags, context, name), and the configuration record whose keys such a list defines:
   each key that is not marked invalid holds one value of the type its definition names. *)
EXTENDS Util, TLC
VARIABLES defs,        \* sequence of [v, f, c, s]
          got,         \* the record has its values
          vals         \* per definition, the raw value (NumValue)
VARIABLE last
vars == <<defs, got, vals, last>>
N == INSTANCE NumValue WITH t <- 0, raw <- 0, trace <- 0, last <- last
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
CATCHALL(x) == x.f % 2 = 1
INVALID(x) == (x.f \div 2) % 2 = 1
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
Low(s) == [i \in 1..Len(s) |-> Lower(s[i])]
RECURSIVE First(_, _)
First(i, v) == IF i > Len(defs) THEN 0 ELSE IF defs[i].v = v THEN i ELSE First(i + 1, v)
\* the first of that name, if none the last catch-all, else 0
RECURSIVE Named(_, _, _)
Named(i, s, c) == IF i > Len(defs) THEN <<c, 0>> ELSE IF Low(defs[i].s) = Low(s) THEN <<i, 1>>
                  ELSE Named(i + 1, s, IF CATCHALL(defs[i]) THEN i ELSE c)
NoName == <<60, 78, 79, 32, 69, 78, 85, 77, 62>>
Str(v) == IF First(1, v) = 0 THEN NoName ELSE defs[First(1, v)].s
RECURSIVE Exported(_)
Exported(i) == IF i > Len(defs) THEN <<>> ELSE (IF INVALID(defs[i]) THEN <<>> ELSE <<i>>) \o Exported(i + 1)
RECURSIVE Names(_, _)
Names(ix, i) == IF i > Len(ix) THEN <<>> ELSE <<Len(defs[ix[i]].s)>> \o defs[ix[i]].s \o Names(ix, i + 1)
\* a list that can key a record: names distinct (letter case aside), at least one of them valid
OkConf == Exported(1) # <<>> /\ \A i, j \in 1..Len(defs) : i # j => Low(defs[i].s) # Low(defs[j].s)
Zero == <<0, 0, 0, 0>>
\* the definition that key names: exactly, and only if it is valid
Key(s) == LET m == { i \in 1..Len(defs) : ~INVALID(defs[i]) /\ defs[i].s = s } IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE

Stored(i) == IF INVALID(defs[i]) \/ defs[i].c \notin N!Types THEN <<>> ELSE vals[i]
RECURSIVE All(_)
All(i) == IF i > Len(defs) THEN <<>> ELSE Stored(i) \o All(i + 1)
Obs == <<<<Len(defs), Bit(got)>>, IF got THEN All(1) ELSE <<>>>>

\* a new list (a: value, flags, context of each; d: the names), and a record keyed by it
List(a, d) == /\ Len(d) >= 1 /\ Len(a) = 3 * Len(d)
              /\ defs' = [i \in 1..Len(d) |-> [v |-> a[3 * i - 2], f |-> a[3 * i - 1], c |-> a[3 * i], s |-> d[i]]]
              /\ got' = FALSE /\ vals' = [i \in 1..Len(d) |-> Zero] /\ Res("list", a, d, <<0>>)
Same == UNCHANGED <<defs, got, vals>>
Valid(v) == Same /\ Res("valid", <<v>>, <<>>, <<Bit(First(1, v) # 0 /\ ~INVALID(defs[First(1, v)]))>>)
ToStr(v) == Same /\ Res("str", <<v>>, <<>>, Str(v))
Extra(v) == Same /\ Res("extra", <<v>>, <<>>, <<IF First(1, v) = 0 THEN 0 ELSE defs[First(1, v)].c>>)
Def(v) == Same /\ Res("def", <<v>>, <<>>, <<First(1, v)>>)
Keys == Same /\ Res("keys", <<>>, <<>>, <<Len(Exported(1))>> \o Names(Exported(1), 1))
ByStr(s) == LET m == Named(1, s, 0) IN
            Same /\ Res("bystr", <<>>, <<s>>, <<m[1], m[2], IF m[1] = 0 THEN defs[Len(defs)].v ELSE defs[m[1]].v>>)
\* a record has its values when first asked for, or told to
Alloc(force) == /\ OkConf /\ UNCHANGED <<defs, vals>> /\ got' = (got \/ force = 1)
                /\ Res("alloc", <<force>>, <<>>, <<Bit(got \/ force = 1), Len(Exported(1))>>)
\* write and read under a key, given by name (d[2]) or (by = 1) by value v; from or to a variable of type y
KeyOf(by, v, s) == Key(IF by = 1 THEN Str(v) ELSE s)
Set(by, v, y, x, s) ==
  /\ OkConf /\ y \in N!Types /\ got' = TRUE /\ UNCHANGED defs
  /\ LET k == KeyOf(by, v, s)
         no(r) == UNCHANGED vals /\ Res("set", <<by, v, y>>, <<x, s>>, <<r>>) IN
     IF k = 0 THEN no(-2)
     ELSE IF defs[k].c \notin N!Types THEN no(-3)
     ELSE IF ~N!Accept(y, x, defs[k].c, 0) THEN no(-3)
     ELSE vals' = [vals EXCEPT ![k] = N!Convert(y, x, defs[k].c)] /\ Res("set", <<by, v, y>>, <<x, s>>, <<0>>)
Get(by, v, y, s) ==
  /\ OkConf /\ y \in N!Types /\ got' = TRUE /\ UNCHANGED <<defs, vals>>
  /\ LET k == KeyOf(by, v, s)
         re(r) == Res("get", <<by, v, y>>, <<s>>, r) IN
     IF k = 0 THEN re(<<-2>>)
     ELSE IF defs[k].c \notin N!Types THEN re(<<-3>>)
     ELSE IF ~N!Accept(defs[k].c, vals[k], y, 1) THEN re(<<-3>>)
     ELSE re(<<0>> \o N!Convert(defs[k].c, vals[k], y))
\* the keys that the printed form names (0: none of them, the record not being ready)
Printed == Same /\ OkConf /\ Res("print", <<>>, <<>>, IF got THEN <<Len(Exported(1))>> \o Names(Exported(1), 1) ELSE <<0>>)
Do(op, a, d) == CASE op = "list" -> List(a, d)
                  [] op = "valid" -> defs # <<>> /\ Valid(a[1]) [] op = "str" -> defs # <<>> /\ ToStr(a[1])
                  [] op = "extra" -> defs # <<>> /\ Extra(a[1]) [] op = "def" -> defs # <<>> /\ Def(a[1])
                  [] op = "keys" -> defs # <<>> /\ Keys [] op = "bystr" -> defs # <<>> /\ ByStr(d[1])
                  [] op \in {"alloc", "set", "get", "print"} /\ ~OkConf -> defs # <<>> /\ Same /\ Res(op, a, d, <<-99>>)    \* (not put to the test)
                  [] op = "alloc" -> defs # <<>> /\ Alloc(a[1])
                  [] op = "set" -> defs # <<>> /\ Set(a[1], a[2], a[3], d[1], d[2])
                  [] op = "get" -> defs # <<>> /\ Get(a[1], a[2], a[3], d[1])
                  [] op = "print" -> defs # <<>> /\ Printed [] OTHER -> FALSE
Init == defs = <<>> /\ got = FALSE /\ vals = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
