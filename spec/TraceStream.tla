----------------------------- MODULE TraceStream -----------------------------
(* Sessions with real pipelines, against SpocStream *)
EXTENDS SpocStream, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s
vars == <<h, l, s>>
TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ s = << >>
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]
         ok == IF e.op = "start" THEN TRUE ELSE StreamPermits(s, e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ s' = IF e.op = "start" THEN Fresh(e) ELSE StreamNext(s, e)
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
