mktrace () 
{ 
    cat > spec/$3.tla <<E
---- MODULE $3 ----
(* Accepts exactly the recorded executions that are behaviours of $1. *)
EXTENDS $1, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\\ l = 1
TraceNext == /\\ l <= Len(Trace)
             /\\ l' = l + 1
             /\\ LET e == Trace[l] IN
                Do(e.op, e.a, e.d) /\\ last'.r = e.r /\\ $2' = e.s
TraceSpec == TraceInit /\\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
E

    cp spec/Trace_RingBuffer.cfg spec/$3.cfg
}
