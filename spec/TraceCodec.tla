----------------------------- MODULE TraceCodec -----------------------------
(* Validation of recorded uses of the byte compressor. Byte strings are      *)
(* tokens; means maps a compressed string to what it stands for. An event is *)
(*   put      [blob, plain]: compressed by an independent implementation     *)
(*   deflate  [src, level, ok, blob, plain]: plain is what an independent    *)
(*            decoder makes of the result ("bad" if it is not one stream)    *)
(*   inflate  [blob, size, want, ok, res]: want = -1 if no size was demanded *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, means
vars == <<h, l, means>>

OK(e) ==
  CASE e.op = "put"     -> TRUE
    [] e.op = "deflate" -> IF e.level \in -1..9 THEN e.ok /\ e.plain = e.src ELSE ~ e.ok
    [] e.op = "inflate" -> IF e.want >= 0 /\ e.want # e.size THEN ~ e.ok ELSE e.ok /\ e.res = means[e.blob]

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ means = << >>
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]  ok == OK(e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ means' = IF e.op = "put" \/ (e.op = "deflate" /\ e.ok) THEN (e.blob :> e.plain) @@ means ELSE means
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
