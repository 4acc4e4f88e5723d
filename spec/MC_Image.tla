---- MODULE MC_Image ----
EXTENDS Image, Json
CONSTANTS Full
VARIABLES n
Dims == { <<1, 8, 1>>, <<2, 1, 7>>, <<1, 2, 8>> } \cup (IF Full = 1 THEN { <<2, 8, 1>>, <<2, 2, 6>>, <<2, 2, 9>>, <<1, 3, 3>>, <<2, 9, 1>>, <<2, 2, 5>> } ELSE {})
Cols == IF Full = 1 THEN {-1, 16909060} ELSE {-1, 66051}
P == { <<0, 0>>, <<1, 0>>, <<0, 1>> } \cup (IF Full = 1 THEN { <<1, 1>>, <<0, 7>>, <<65535, 0>> } ELSE {})
Step == \/ im.own = 0 /\ \E d \in Dims, x \in 0..1 : (n = 0 \/ x = 0) /\ Do("new", d \o <<x>>, <<>>)
        \/ im.own # 0 /\ \/ \E p \in P, c \in Cols : Do("set", p \o <<c>>, <<>>)
                         \/ \E p \in P : Do("get", p, <<>>) \/ Do("rgb", p \o <<255, 130, 65>>, <<>>) \/ Do("as", p \o <<8>>, <<>>)
                         \/ \E c \in Cols : Do("fill", <<c>>, <<>>)
                         \/ Do("ser", <<>>, <<>>) \/ Do("wipe", <<>>, <<>>) \/ Do("size", <<1, 2>>, <<>>)
        \/ \E r \in {1, 2, 3, 0} : r = (rot + 1) % 4 /\ Do("orient", <<r>>, <<>>)
        \/ im.own # 0 /\ (Do("flip", <<1 - im.fx, im.fy>>, <<>>) \/ Do("flip", <<im.fx, 1 - im.fy>>, <<>>))
        \/ Do("load", <<>>, <<>>)
Counts == last'.op \in {"set", "rgb", "fill", "size", "new", "load"}
MCNext == Step /\ n' = (IF Counts THEN n + 1 ELSE n)
MCSpec == Init /\ n = 0 /\ [][MCNext]_<<vars, n>>
View == <<im, rot, tx, wire, n>>
Area == (0..(Wide(im) - 1)) \X (0..(High(im) - 1))
Inv_Map == im.own # 0 => /\ \A p \in Area : Logical(im, rot, Native(im, rot, p)) = p
                         /\ \A p \in Area : LET q == Native(im, rot, p) IN q[1] \in 0..(im.w - 1) /\ q[2] \in 0..(im.h - 1)
Inv_Kept == \A i \in 1..Len(im.px) : im.px[i] = Kept(im.fmt, im.px[i])
Inv_Size == Len(im.px) = (IF im.own = 0 THEN 0 ELSE im.w * im.h) /\ (im.own # 0 /\ Plain(im) => Len(PixelBytes(im)) = Bytes(im.w, im.h, im.fmt))
\* what was serialized loads as it was
Prop_Wire == [][last'.op = "ser" /\ last'.r[1] = 0 => Load(NoImage, wire')[2] = 0 /\ Load(NoImage, wire')[1].px = im.px /\ Load(NoImage, wire')[1].fmt = im.fmt]_vars
\* a pixel that is set is read, and no other changes
Prop_Set == [][last'.op = "set" => LET p == <<last'.a[1], last'.a[2]>> IN
                 /\ \A q \in Area : q # p => Get(im', rot, q) = Get(im, rot, q)
                 /\ (last'.r = <<1>> => Get(im', rot, p) = Kept(im.fmt, last'.a[3])) /\ (last'.r = <<0>> => im' = im)]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(<<im', rot', tx', wire', n'>>)>>)
CONSTANT Max
Bounded == n <= Max
====
