---- MODULE Trace_AxisPipe ----
(* Accepts exactly the recorded executions that are behaviours of AxisPipe. *)
EXTENDS AxisPipe, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                Do(e.op, e.a) /\ last'.r = e.r /\ Obs' = e.s
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
