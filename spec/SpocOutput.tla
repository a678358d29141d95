----------------------------- MODULE SpocOutput -----------------------------
(* A command that writes its output through a buffered stream to devices     *)
(* that may stop accepting data at any byte: Items[1..n] are the pieces the  *)
(* command writes, one destination after the other (several for tiling).     *)
(* The stream remembers a failure; the command looks at the end of each      *)
(* destination, and perhaps (Eager) after each piece.                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxItems, MaxSize, MaxDest, MaxBuf

VARIABLES sizes,    \* sizes[d]: the pieces of destination d
          caps,     \* how many bytes each destination takes
          bufsize, eager,
          d, k,     \* destination and piece being written
          buf, bad, \* bytes in the stream's buffer, failure seen by the stream
          dev,      \* bytes each destination has
          rc        \* -1: running
vars == <<sizes, caps, bufsize, eager, d, k, buf, bad, dev, rc>>
cfg == <<sizes, caps, bufsize, eager>>

RECURSIVE Total(_)
Total(s) == IF s = << >> THEN 0 ELSE Head(s) + Total(Tail(s))

Init ==
  /\ \E n \in 1..MaxDest :
       /\ sizes \in [1..n -> UNION {[1..m -> 1..MaxSize] : m \in 0..MaxItems}]
       /\ caps \in [1..n -> 0..(MaxItems * MaxSize + 1)]
       /\ dev = [x \in 1..n |-> 0]
  /\ bufsize \in 0..MaxBuf /\ eager \in BOOLEAN
  /\ d = 1 /\ k = 1 /\ buf = 0 /\ bad = FALSE /\ rc = -1

Room == caps[d] - dev[d]
(* n bytes leave the buffer *)
Push(n) == IF n <= Room THEN dev' = [dev EXCEPT ![d] = @ + n] /\ bad' = bad
           ELSE dev' = [dev EXCEPT ![d] = caps[d]] /\ bad' = TRUE

Put ==
  /\ rc = -1 /\ k <= Len(sizes[d]) /\ ~ (eager /\ bad)
  /\ IF bad THEN UNCHANGED <<dev, bad, buf>>                 \* a failed stream takes nothing
     ELSE IF buf + sizes[d][k] <= bufsize THEN buf' = buf + sizes[d][k] /\ UNCHANGED <<dev, bad>>
     ELSE buf' = 0 /\ Push(buf + sizes[d][k])
  /\ k' = k + 1
  /\ UNCHANGED <<cfg, d, rc>>
(* the end of a destination: flush, then look *)
Flush ==
  /\ rc = -1 /\ k > Len(sizes[d]) /\ buf > 0 /\ ~ bad
  /\ Push(buf) /\ buf' = 0
  /\ UNCHANGED <<cfg, d, k, rc>>
Close ==
  /\ rc = -1 /\ k > Len(sizes[d]) /\ buf = 0 /\ ~ bad
  /\ IF d = Len(sizes) THEN rc' = 0 /\ UNCHANGED <<d, k>> ELSE d' = d + 1 /\ k' = 1 /\ rc' = rc
  /\ UNCHANGED <<cfg, buf, bad, dev>>
Fail ==
  /\ rc = -1 /\ bad /\ (eager \/ k > Len(sizes[d]))
  /\ rc' = 1
  /\ UNCHANGED <<cfg, d, k, buf, bad, dev>>
Next == Put \/ Flush \/ Close \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == \A x \in 1..Len(sizes) : dev[x] = Total(sizes[x])
SuccessIsComplete == rc = 0 => Complete
FailureIsReal == rc = 1 => \E x \in 1..Len(sizes) : caps[x] < Total(sizes[x])
Ends == <>(rc # -1)
=============================================================================
