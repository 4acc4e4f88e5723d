---- MODULE MC_Base64 ----
EXTENDS Base64, Json
CONSTANTS Modes, Chunks, Alpha, MaxBuf, Rooms
MCNext == IF mode < 0 THEN \E m \in Modes, c \in Chunks : Do("new", <<m, c>>, <<>>)
          ELSE \/ \E b \in Alpha : Len(buf) < MaxBuf /\ Do("feed", <<>>, <<<<b>>>>)
               \/ \E n \in Rooms : room # n /\ Do("room", <<n>>, <<>>)
               \/ Do("push", <<>>, <<>>) \/ (buf # <<>> /\ Do("discard", <<>>, <<>>))
               \/ \E x \in 0..1 : link # x /\ Do("link", <<x>>, <<>>)
MCSpec == Init /\ [][MCNext]_vars
View == <<mode, link, chunk, buf, room>>
\* what was encoded decodes to itself, and encodings are valid
Inverse == mode = 0 => Dec(Enc(buf)) = buf /\ (buf # <<>> => Valid(Enc(buf)))
\* a valid text with zero padding bits is the encoding of what it decodes to
Inverse2 == mode = 1 /\ Valid(buf) /\ Len(Dec(buf)) % 3 = 0 => Enc(Dec(buf)) = buf
Prop_Claim == [][(last'.op = "push") => (last'.r[1] = -1 => buf' = buf /\ got' = <<>> /\ room' = room)
                                     /\ (last'.r[1] = 1 <=> buf # <<>> /\ buf' = <<>>)
                                     /\ (last'.r[1] >= 0 => (IF mode = 0 THEN Dec(got') ELSE Dec(Take(buf, Len(buf) - Len(buf')))) =
                                                            (IF mode = 0 THEN Take(buf, Len(buf) - Len(buf')) ELSE got'))]_vars
Dump == PrintT(<<"@E", ToJson(View), ToJson(<<last'.op, last'.a, last'.d>>), ToJson(View')>>)
====
