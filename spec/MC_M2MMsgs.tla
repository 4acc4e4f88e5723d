---- MODULE MC_M2MMsgs ----
EXTENDS M2MMsgs, Json
CONSTANTS Cs, Fs, Ids, Pls, Kinds
\* every header this end can make is one that any end reads back as it was
MCNext == \/ \E c \in Cs, pl \in Pls, f \in Fs, i \in Ids : pl < 256 /\ h = NoHdr /\ m = NoM /\ Do("mk", <<c, pl, f, i>>, <<>>)
          \/ ~NotYet("setlen") /\ \E pl \in Pls : Do("setlen", <<pl>>, <<>>)
          \/ ~NotYet("flag") /\ \E e \in 0..1, r \in 0..1 : Do("flag", <<e, r>>, <<>>)
          \/ ~NotYet("ser") /\ Do("ser", <<>>, <<>>)
          \/ last.op = "ser" /\ Len(last.r) > 1 /\ Do("parse", <<>>, <<Tail(last.r)>>)
          \/ \E c \in Cs, f \in Fs, i \in Ids, k \in Kinds : m = NoM /\ h = NoHdr /\ Do("out", <<c, f, i, k, 5>>, <<>>)
          \/ ~NotYet("write") /\ Do("write", <<>>, <<>>)
          \/ \E n \in 4..12 : last.op = "write" /\ Do("unser", <<>>, <<Take(Tail(last.r), n)>>)
          \/ ~NotYet("reply") /\ \E k \in Kinds, e \in 0..1 : Do("reply", <<k, 3, e>>, <<>>)
          \/ ~NotYet("pay") /\ \E k \in Kinds : Do("pay", <<k, 4>>, <<>>)
          \/ ~NotYet("retry") /\ Do("retry", <<>>, <<>>)
          \/ Do("end", <<>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
Bound == rnd < 3
Prop_RoundTrip == [][last'.op = "parse" => (h' = h /\ last'.r[1] >= 0 /\ Sane(h'))]_vars
Prop_Message == [][(last'.op = "unser" /\ last'.r[1] = 1) => (m'.h = m.h /\ (m'.acc = SubSeq(m.acc, HLen(m.h.f) + 1, HLen(m.h.f) + Len(m'.acc))))]_vars
Inv_Len == \A x \in {h} : x = NoHdr \/ (x.len >= HLen(x.f) /\ NB(x.len) <= 3 /\ x.len = HLen(x.f) + PayLen(x))
Inv_Min == h = NoHdr \/ LenL(h.f) = 1 \/ h.len - 1 >= (IF LenL(h.f) = 2 THEN 256 ELSE 65536) \/ last.op = "parse"
Prop_Reply == [][(last'.op = "reply" /\ last'.r[1] = 0) => (m'.h.id = m.h.id /\ Rep(m'.h.f) /\ m'.h.c = m.h.c)]_vars
View == <<h, m, rnd, IF last.op \in {"ser", "write"} THEN last.r ELSE <<>>>>
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
