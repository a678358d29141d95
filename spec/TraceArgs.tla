------------------------------ MODULE TraceArgs ------------------------------
(* Validation of recorded command lines: the words that were typed, read by  *)
(* the automaton of SpocArgs, have to explain what the application did.      *)
EXTENDS SpocArgs, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, fs
vars == <<h, l, fs>>

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ fs = << >>

TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]
         ok == e.op.app = "put" \/ LinePermits(fs, e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ fs' = Update(fs, e.wr)
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
