----------------------------- MODULE TraceObject -----------------------------
(* Validation of recorded operations on real cloud objects: every event has  *)
(* the operation, whether it was accepted, and all that can be observed of   *)
(* all objects and vectors afterwards.                                       *)
EXTENDS SpocObject, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, s
vars == <<h, l, s>>

Seen(e) == [o |-> [k \in 1..Len(e.o) |-> [w |-> e.o[k].w, c |-> e.o[k].c, m |-> e.o[k].m, recs |-> e.o[k].recs]], v |-> e.v]
(* everything else an object says about itself *)
Honest(x) ==
  /\ x.n = Len(x.recs) /\ x.E = EOf(x.recs) /\ x.valid /\ x.cols
  /\ x.z = AllZero(x.recs)
  /\ x.h = Header([w |-> x.w, c |-> x.c, m |-> x.m, recs |-> x.recs], x.w = "L65536")

OK(e) ==
  IF "crash" \in DOMAIN e THEN FALSE
  ELSE LET t == Seen(e)
       IN /\ \E r \in Step(s, e.op) : r.ok = e.ok /\ r.o = t.o /\ r.v = t.v
          /\ \A k \in 1..Len(e.o) : Honest(e.o[k])

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ s = [o |-> <<Empty, Empty, Empty>>, v |-> <<<< >>, << >>>>]
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]  ok == OK(e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ s' = IF ok THEN Seen(e) ELSE s
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
