----------------------------- MODULE TraceShell -----------------------------
(* Validation of recorded histories of real commands. Line h of the trace   *)
(* file is one history [ev |-> <<[op, rc, wr, so, to], ...>>]. Every event  *)
(* has to be permitted by SpocShell in the state the recorded store is in.  *)
EXTENDS SpocShell, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, fs, memo
vars == <<h, l, fs, memo>>

Outcome(e) == [rc |-> e.rc, wr |-> e.wr, so |-> e.so, to |-> e.to]

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ fs = << >> /\ memo = {}

TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]
         o == Outcome(e)
         det == Has(e.op, "det") /\ ~ (e.rc # 0 /\ Has(e.op, "fault"))   \* a fault may or may not hit
         ok == Permits(fs, e.op, o) /\ (det => Consistent(memo, MemoOf(fs, e.op, o)))
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ memo' = IF det /\ ok THEN memo \cup {MemoOf(fs, e.op, o)} ELSE memo
        /\ fs' = Update(fs, e.wr)
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1   \* nothing is known after a violation
  /\ h' = h

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
