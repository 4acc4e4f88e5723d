---- MODULE MC_RingBuffer ----
(* Exhaustive configuration: every call sequence on ring buffers of capacity 0..MaxCap over a small alphabet. *)
EXTENDS RingBuffer, Json
CONSTANTS MaxCap, Vals, MaxBulk, Hist

VARIABLES ins, outs   \* histories: everything ever accepted / removed, in order (bounded by the constraint)
mcvars == <<vars, ins, outs>>

Bulk == UNION {[1..n -> Vals] : n \in 0..MaxBulk}
Calls ==      {<<"insert", <<x>>, <<>>>> : x \in Vals} \cup {<<"absent", <<x>>, <<>>>> : x \in Vals}
         \cup {<<"insertN", <<>>, <<b>>>> : b \in Bulk}
         \cup {<<"get", <<>>, <<>>>>, <<"peek", <<>>, <<>>>>, <<"clear", <<>>, <<>>>>}
         \cup {<<o, <<n>>, <<>>>> : o \in {"getN", "peekN", "cull", "peekAt"}, n \in 0..(MaxCap + 1)}
         \cup {<<"contains", <<x>>, <<>>>> : x \in Vals}

Removed == SubSeq(q, 1, Len(q) - Len(q'))      \* valid for the removing calls
History ==
  /\ ins'  = IF last'.op \in {"insert", "absent"} /\ last'.r = <<0>> THEN Append(ins, last'.a[1])
             ELSE IF last'.op = "insertN" /\ last'.r[1] > 0 THEN ins \o SubSeq(last'.d[1], 1, last'.r[1]) ELSE ins
  /\ outs' = IF last'.op \in {"get", "getN", "cull", "clear"} THEN outs \o Removed ELSE outs

MCInit == Init /\ ins = <<>> /\ outs = <<>>
MCNext == (IF cap = -1 THEN \E c \in 1..MaxCap : Do("new", <<c>>, <<>>)
           ELSE \E c \in Calls : Do(c[1], c[2], c[3])) /\ (IF Hist THEN History ELSE UNCHANGED <<ins, outs>>)
MCSpec == MCInit /\ [][MCNext]_mcvars
Bound == Len(ins) <= 2 * MaxCap + 2
View == <<cap, q, ins, outs>>

\* ---- properties ----
TypeOK == cap >= 0 => Len(q) \in 0..cap
Conservation == Hist => ins = outs \o q         \* FIFO, nothing lost, duplicated or reordered
Prop_Queries == [][last'.op \in {"peek", "peekN", "peekAt", "contains"} => q' = q]_mcvars
Prop_Get  == [][last'.op = "get" /\ q # <<>> => last'.r = <<q[1]>> /\ q' = Tail(q)]_mcvars
Prop_Full == [][last'.op \in {"insert", "absent"} /\ last'.r = <<-1>> => Len(q) = cap /\ q' = q]_mcvars
Prop_Bulk == [][last'.op = "insertN" /\ last'.r[1] >= 0 =>
                  Len(q') = Len(q) + last'.r[1] /\ (last'.r[1] < Len(last'.d[1]) => Len(q') = cap)]_mcvars
Prop_Absent == [][last'.op = "absent" /\ last'.r = <<0>> => ~Has(last'.a[1])]_mcvars

\* ---- transition dump, for replay into the code ----
Dump == PrintT(<<"@E", ToJson(<<cap, q>>), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<cap', q'>>)>>)
====
