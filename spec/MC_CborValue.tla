---- MODULE MC_CborValue ----
EXTENDS CborValue, Json
CONSTANTS Alpha, MaxBuf, Sers
K == <<97>>
Keys == {<<>>, <<97>>, <<98, 99>>}
Leaf == {Plain(1, <<0, 5, 0, 0, 0>>), Plain(1, <<1, 255, 0, 0, 0>>), Plain(1, <<1, 65535, 65535, 65535, 32767>>), Plain(1, <<0, 256, 0, 0, 0>>), Plain(1, <<0, 0, 0, 0, 32768>>),
         Plain(2, <<1, 0, 2>>), Plain(3, <<97>>), Plain(3, <<>>), Plain(4, <<1>>), Plain(6, <<0, 16256>>), Plain(7, <<1, 2, 3, 16368>>), Plain(9, <<58, 1, 2, 255>>)}
Pair1 == {Keyed(k, n) : k \in Keys, n \in Leaf}
Nest == {<<1, 1, 97, 8, Len(n)>> \o n : n \in {x \in Pair1 : x[2] > 0}}
MCNext == IF live = 0 THEN Do("new", <<>>, <<>>)
          ELSE \/ \E x \in Alpha : Len(buf) < MaxBuf /\ Do("feed", <<>>, <<<<x>>>>)
               \/ \E c \in {0, 1} : Do("next", <<c>>, <<>>)
               \/ buf = <<>> /\ Sers > 0 /\ \E n \in Leaf : Do("ser", <<>>, <<n>>)
               \/ buf = <<>> /\ Sers > 0 /\ \E n \in Pair1 \cup Nest : Do("ser", <<>>, <<n>>)
               \/ buf = <<>> /\ Sers > 1 /\ \E n \in Pair1 \cup Nest, m \in Pair1 : Do("ser", <<>>, <<n, m>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<live, buf>>
\* a value is only taken whole: with the last byte missing there was none; and what follows it does not matter
Prop_Whole == [][(last'.op = "next" /\ last'.r[1] = 1) => LET n == Len(buf) - Len(buf') IN
                   /\ n > 0 /\ Dec(Take(buf, n)).st = "ok" /\ \A k \in 0..(n - 1) : Dec(Take(buf, k)).st \in {"fail", "open"}]_vars
\* what is written is read back
Wr(d) == IF d[1][1] = 1 /\ Written(d) = <<>> THEN <<-1>> ELSE <<0>> \o EncNodes(d)
ASSUME \A n \in Leaf \cup Pair1 \cup Nest : SerOk(<<n>>, Wr(<<n>>))
ASSUME \A n \in Pair1 \cup Nest, m \in Pair1 : SerOk(<<n, m>>, Wr(<<n, m>>))
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
