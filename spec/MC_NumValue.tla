---- MODULE MC_NumValue ----
EXTENDS NumValue, Json
CONSTANTS Ts, Edge, MaxTr
\* the numbers at every bound of every type, by raw representation
All == {<<0,0,0,0>>, <<1,0,0,0>>, <<127,0,0,0>>, <<128,0,0,0>>, <<255,0,0,0>>, <<256,0,0,0>>, <<32767,0,0,0>>, <<32768,0,0,0>>, <<65408,0,0,0>>, <<65407,0,0,0>>,
        <<65535,0,0,0>>, <<0,1,0,0>>, <<65535,32767,0,0>>, <<0,32768,0,0>>, <<65535,65535,0,0>>, <<65408,65535,0,0>>, <<65407,65535,0,0>>, <<32768,65535,0,0>>, <<32767,65535,0,0>>,
        <<0,0,1,0>>, <<1,256,0,0>>, <<3,256,0,0>>, <<0,16256,0,0>>, <<0,32640,0,0>>, <<0,32704,0,0>>, <<1,0,32,0>>, <<3,0,64,0>>,
        <<65535,65535,65535,32767>>, <<0,0,0,32768>>, <<65535,65535,65535,65535>>, <<65408,65535,65535,65535>>, <<65407,65535,65535,65535>>,
        <<32768,65535,65535,65535>>, <<32767,65535,65535,65535>>, <<0,32768,65535,65535>>, <<65535,32767,65535,65535>>, <<0,0,0,16368>>, <<1024,0,0,32768>>, <<1025,0,0,32768>>}
Few == {<<0,0,0,0>>, <<127,0,0,0>>, <<128,0,0,0>>, <<65535,0,0,0>>, <<32768,65535,0,0>>, <<65535,65535,0,0>>, <<0,32768,0,0>>, <<65535,65535,65535,32767>>, <<65408,65535,65535,65535>>, <<0,0,0,32768>>}
Src == IF Edge = 1 THEN Few ELSE All
Vals(x) == IF x = BOOL THEN {Zero, <<1,0,0,0>>} ELSE {v \in Src : \A i \in Width(x)..63 : BitOf(v, i) = 0}
Every(x) == IF x = BOOL THEN {Zero, <<1,0,0,0>>} ELSE {v \in All : \A i \in Width(x)..63 : BitOf(v, i) = 0}
MCNext == IF t = 0 THEN (\E x \in Ts : Do("new", <<x, 0>>, <<Zero>>)) \/ (\E x \in Ts : \E v \in Every(x) : Do("new", <<x, 1>>, <<v>>))
          ELSE \/ \E x \in Ts, via \in 0..1 : \E v \in Vals(x) : trace < MaxTr /\ Do("set", <<x, via>>, <<v>>)
               \/ \E y \in Ts : Do("get", <<y>>, <<>>)
               \/ \E y \in Ts \cap {3, 4, 8, 9, 11, 12, 13} : Do("getc", <<y>>, <<>>)
               \/ Do("text", <<>>, <<>>)
               \/ \E y \in Ts : Do("risk", <<t, y>>, <<>>)
               \/ \E k \in 0..MaxTr : Do("dirty", <<k>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<t, raw, trace>>
\* exact or refused: whatever was written can be read back with the type it was written from, as it was
Prop_RoundTrip == [][(last'.op = "set" /\ last'.r = <<0>> /\ t # BOOL /\ last'.a[1] \notin {BOOL, FLT, DBL} /\ t \in Ints)
                     => Accept(t, raw', last'.a[1], 1) /\ Convert(t, raw', last'.a[1]) = last'.d[1]]_vars
\* a refused write changes nothing
Prop_Refused == [][(last'.op = "set" /\ last'.r = <<-1>>) => View' = View]_vars
\* a conversion announced as free of risk is never refused
Prop_Risk == [][(last'.op = "risk" /\ last'.r = <<0>>) => \A v \in Every(last'.a[1]) : Accept(last'.a[1], v, last'.a[2], 0)]_vars
Prop_RiskReal == [][(last'.op = "risk" /\ last'.r[1] \in {2, 3}) => \E v \in Every(last'.a[1]) : ~Accept(last'.a[1], v, last'.a[2], 0)]_vars
\* reading and writing agree
Agree == t # 0 => \A y \in Ints : Accept(t, raw, y, 0) = Accept(t, raw, y, 1)
\* conversion to floating point is monotone in the magnitude for unsigned integers
Less(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in (i + 1)..4 : a[j] = b[j]
Mono == t \in Unsigned => \A v \in Every(t), y \in {FLT, DBL} : Less(raw, v) => ~Less(Convert(t, v, y), Convert(t, raw, y))
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
