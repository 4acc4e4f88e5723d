---- MODULE Trace_M2MLink ----
(* Accepts exactly the recorded executions that are behaviours of M2MLink. *)
EXTENDS M2MLink, Json, IOUtils
VARIABLE l
\* what the application makes of a payload of unknown form is left open (-9)
Like(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i] \/ x[i] = -9
Alike(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Like(x[i], y[i])
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                Do(e.op, e.a, e.d) /\ last'.r = e.r /\ Alike(Obs', e.s)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
