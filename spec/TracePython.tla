----------------------------- MODULE TracePython -----------------------------
(* Recorded sessions with the real Python module: every event has the       *)
(* operation, whether it raised, what it returned, and everything that can  *)
(* be seen of all objects, records, lists and files afterwards.             *)
EXTENDS SpocPython, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s
vars == <<h, l, s>>

FilesSeen(e) == [n \in {e.f[k][1] : k \in 1..Len(e.f)} |-> LET k == CHOOSE j \in 1..Len(e.f) : e.f[j][1] = n IN e.f[k][2]]
SameFile(x, y) ==      \* x: expected
  IF x.k = "part" THEN y.k \in {"junk", "empty", "none"} ELSE x = y
Cloud(x) == [w |-> x.w, c |-> x.c, recs |-> x.recs]
(* the column getters and the record getter agree with the list of records *)
Honest(x) ==
  /\ x.ver = <<0, 1>>
  /\ x.single = x.recs
  /\ \A j \in 1..9 : x.cols[j] = [n \in 1..Len(x.recs) |-> x.recs[n][j]]
  /\ Len(x.cols) = 9 + EOf(x.recs)
  /\ \A j \in 10..Len(x.cols) : x.cols[j] = [n \in 1..Len(x.recs) |-> x.recs[n][j]]
OK(e) ==
  IF "crash" \in DOMAIN e THEN FALSE
  ELSE /\ \A k \in 1..Len(e.o) : Honest(e.o[k])
       /\ e.canon
       /\ \E q \in Step(s, e.op) :
            /\ q.ok = e.ok /\ q.x = e.x
            /\ \A k \in 1..2 : q.s.o[k] = Cloud(e.o[k])
            /\ q.s.r = e.r /\ q.s.v = e.v
            /\ LET seen == FilesSeen(e)
               IN \A n \in DOMAIN q.s.f \cup DOMAIN seen : SameFile(File(q.s, n), IF n \in DOMAIN seen THEN seen[n] ELSE None)
Seen(e) == [o |-> <<Cloud(e.o[1]), Cloud(e.o[2])>>, r |-> e.r, v |-> e.v, f |-> FilesSeen(e)]

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ s = Start
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]  ok == OK(e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ s' = IF ok THEN Seen(e) ELSE s
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
