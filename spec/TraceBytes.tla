----------------------------- MODULE TraceBytes -----------------------------
(* Validation of recorded sessions of the library's readers and writers on   *)
(* one byte stream: buf is what was written to the stream, at the position   *)
(* of the next byte to be read.                                              *)
EXTENDS SpocBytes, Json, IOUtils

Has(r, f) == f \in DOMAIN r
Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, buf, at
vars == <<h, l, buf, at>>

(* res.n, res.E: as reported by the reader. A cloud without records reports  *)
(* no extra fields, a header reports what it states.                         *)
ReadOK(e, r) ==
  IF r.ph = "reject" THEN ~ e.ok
  ELSE IF ~ e.ok THEN r.soft
  ELSE /\ e.used = r.at - at
       /\ e.w = r.w /\ e.c = (r.flag # 0)
       /\ e.n = r.n
       /\ IF e.mode = "hdr" THEN e.E = r.E
          ELSE /\ e.recs = r.recs
               /\ IF e.mode # "rec" /\ r.n = 0 THEN e.E = 0 ELSE e.E = r.E

OK(e) ==
  IF Has(e, "crash") /\ e.crash THEN FALSE ELSE
  CASE e.op = "open"  -> TRUE
    [] e.op = "write" ->
         IF ~ Representable(e.cl) \/ ~ FlagOK(e.cl, e.mode) THEN ~ e.ok
         ELSE e.ok /\ WriteOK(e.cl, e.mode, e.bytes, e.inf)
    [] e.op = "limit" -> e.ok <=> e.lim >= e.total
    [] e.op = "read"  -> ReadOK(e, Decode(buf, at, e.inf, e.mode))

TraceInit == h \in 1..Len(Hist) /\ l = 1 /\ buf = << >> /\ at = 1

TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[l]  ok == OK(e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ buf' = CASE e.op = "open" -> e.bytes [] e.op = "write" /\ e.ok -> buf \o e.bytes [] OTHER -> buf
        /\ at' = CASE e.op = "open" -> 1 [] e.op = "read" /\ e.ok -> at + e.used [] OTHER -> at
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
