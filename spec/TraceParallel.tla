---------------------------- MODULE TraceParallel ----------------------------
(* Executions of real commands under many schedules, against SpocParallel   *)
EXTENDS SpocParallel, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, known
vars == <<h, l, known>>
TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ known = {}
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]
         ok == RunPermits(known, e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ known' = Learn(known, e)
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
