------------------------------ MODULE TraceJson ------------------------------
(* Validation of recorded notations: both forms read back as the value.      *)
EXTENDS SpocJson, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l
vars == <<h, l>>

OK(e) == ~ "crash" \in DOMAIN e /\ IsNotationOf(e.r.compact, Value(e.v))
         /\ IsNotationOf(e.r.pretty, Value(e.v))

TraceInit == h \in 1..Len(Hist) /\ l = 1
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET ok == OK(Hist[h].ev[l])
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
