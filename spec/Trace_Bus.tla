---- MODULE Trace_Bus ----
(* Accepts exactly the recorded executions that are behaviours of Bus. *)
EXTENDS Bus, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                Do(e.op, e.a, e.d) /\ last'.r = e.r /\ Obs' = e.s
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
