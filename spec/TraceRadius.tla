----------------------------- MODULE TraceRadius -----------------------------
(* Validation of recorded radius searches: [pts, a, b, limit, r2, rc, edge,  *)
(* calls, key]. edge lists the pairs of points whose distance rounds to the  *)
(* radius, with what must be said of them (TRUE, FALSE) or "any".            *)
EXTENDS SpocRadius, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, s
vars == <<h, l, s>>

(* the search that is asked for *)
All(e) == [k \in 1..Len(e.pts) |-> k - 1]
QueryList(e) == IF e.op \in {"all", "all32", "get"} THEN All(e) ELSE e.a
CandList(e) ==
  CASE e.op \in {"all", "all32", "get", "alln"} -> All(e)
    [] e.op \in {"indexes", "indexes32"} -> e.a
    [] OTHER -> e.b
Limit(e) == IF e.op \in {"search32", "indexes32", "all32", "get"} THEN 32 ELSE e.limit

OK(e) ==
  LET P == QueryList(e)
      C == CandList(e)
      special == {<<e.edge[k][1], e.edge[k][2]>> : k \in 1..Len(e.edge)}
      said == [x \in special |-> e.edge[CHOOSE k \in 1..Len(e.edge) : e.edge[k][1] = x[1] /\ e.edge[k][2] = x[2]][3]]
      verdict(a, b) ==
        LET x == IF a < b THEN <<a, b>> ELSE <<b, a>>
        IN IF x \in special THEN said[x] ELSE IF Within(e.pts[a + 1], e.pts[b + 1], e.r2, e.rc) THEN "in" ELSE "out"
  IN IF "crash" \in DOMAIN e THEN FALSE
     ELSE IF e.op = "crowd" THEN
          /\ Len(e.calls) = Len(P)
          /\ \A k \in 1..Len(P) :
               /\ e.calls[k][1] = k - 1
               /\ e.calls[k][2][Len(C) + 1] = 1       \* all different
               /\ RightCounts(SubSeq(e.calls[k][2], 1, Len(C)), [j \in 1..Len(C) |-> verdict(P[k], C[j]) = "in"], e.rep, Limit(e))
     ELSE /\ Len(e.calls) = Len(P)
          /\ \A k \in 1..Len(P) :
               /\ e.calls[k][1] = k - 1
               /\ LET v == [j \in 1..Len(C) |-> verdict(P[k], C[j])]
                  IN RightList(e.calls[k][2], {j - 1 : j \in {x \in 1..Len(C) : v[x] = "in"}},
                                              {j - 1 : j \in {x \in 1..Len(C) : v[x] # "out"}}, Limit(e))
          (* the same search again gives the same *)
          /\ e.key \in DOMAIN s => s[e.key] = e.calls

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ s = << >>
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]  ok == OK(e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ s' = IF ok THEN [k \in DOMAIN s \cup {e.key} |-> IF k = e.key THEN e.calls ELSE s[k]] ELSE s
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
