---- MODULE MC_CborStream ----
EXTENDS CborStream, Json
CONSTANTS Modes, Alpha, MaxRest, MaxPiece, Encs
Bytes(n) == UNION {[1..k -> Alpha] : k \in 1..n}
Vals == {<<0, 0, 0, 0>>, <<23, 0, 0, 0>>, <<24, 0, 0, 0>>, <<127, 0, 0, 0>>, <<128, 0, 0, 0>>, <<255, 0, 0, 0>>, <<256, 0, 0, 0>>, <<32767, 0, 0, 0>>, <<32768, 0, 0, 0>>,
         <<65535, 0, 0, 0>>, <<0, 1, 0, 0>>, <<65535, 32767, 0, 0>>, <<0, 32768, 0, 0>>, <<65535, 65535, 0, 0>>, <<0, 0, 1, 0>>, <<1, 2, 3, 4>>,
         <<65535, 65535, 65535, 32767>>, <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>, <<65280, 65535, 65535, 65535>>,
         <<65512, 65535, 65535, 65535>>, <<65511, 65535, 65535, 65535>>, <<32768, 65535, 65535, 65535>>, <<32767, 65535, 65535, 65535>>, <<0, 32768, 65535, 65535>>}
FitsU(v, w) == IF w = 8 THEN v[1] < 256 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] = 0 ELSE IF w = 16 THEN v[2] = 0 /\ v[3] = 0 /\ v[4] = 0
               ELSE IF w = 32 THEN v[3] = 0 /\ v[4] = 0 ELSE TRUE
FitsS(v, w) == LET x == IF IsNeg64(v) THEN Inv(v) ELSE v IN FitsU(x, w) /\ (IF w = 8 THEN x[1] < 128 ELSE IF w = 16 THEN x[1] < 32768 ELSE IF w = 32 THEN x[2] < 32768 ELSE TRUE)
MCNext == IF mode < 0 THEN \E m \in Modes : Do("new", <<m>>, <<>>)
          ELSE \/ \E s \in Bytes(MaxPiece) : Len(rest) + Len(s) <= MaxRest /\ failed = 0 /\ Do("feed", <<>>, <<s>>)
               \/ \E s \in Bytes(MaxPiece) : rest = <<>> /\ failed = 0 /\ Do("whole", <<>>, <<s>>)
               \/ rest = <<>> /\ failed = 0 /\ Encs = 1
                  /\ \E v \in Vals, w \in {8, 16, 32, 64}, k \in {0, 1, 4, 5, 6, 7, 11, 12}, cap \in {-1} \cup 0..9 :
                       /\ (k = 0 => FitsU(v, w)) /\ (k = 1 => FitsS(v, w)) /\ (k > 1 => w = 64) /\ (k \in 4..6 => FitsU(v, 32)) /\ (k = 11 => FitsU(v, 32)) /\ (k = 7 => v[1] < 2 /\ FitsU(v, 8))
                       /\ IF cap = -1 THEN Do("enc", <<k, w>> \o v, <<<<>>>>) ELSE Do("encto", <<cap, k, w>> \o v, <<<<>>>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<mode, rest, failed>>
\* however the stream is split, the listener hears the same: running over what is left yields nothing
Settled == failed = 0 => Run(rest).evs = <<>> /\ Run(rest).rest = rest
\* what is written is read back as one item
Prop_RoundTrip == [][(last'.op = "enc") => LET x == Run(last'.r) IN x.err = 0 /\ x.rest = <<>> /\ (last'.a[1] \in 0..1 => x.evs[1] = 1
                       /\ (IF x.evs[2] = 1 THEN Inv(SubSeq(x.evs, 3, 6)) ELSE SubSeq(x.evs, 3, 6)) = SubSeq(last'.a, 3, 6))]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
