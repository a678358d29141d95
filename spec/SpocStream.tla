----------------------------- MODULE SpocStream -----------------------------
(* Pipelines of record streams. A stream is a header and then records; a    *)
(* pipeline is a sequence of stages, each with a list of commands. What is  *)
(* observed: complete units sent into the pipeline, units that come out,    *)
(* moments at which nothing more comes out, and the ends of the stages.     *)
EXTENDS SpocOps

Through(stages, rec) == FoldLeft(LAMBDA q, cmds : ApplyAll(q, cmds, 1), rec, stages)

(* stream state: head: the header was sent, hgot: it came out, sent: the    *)
(* records sent, got: how many came out, gone: nobody reads the output any  *)
(* more, cut: a stage was killed *)
Fresh(st) == [head |-> FALSE, hgot |-> FALSE, sent |-> << >>, got |-> 0, gone |-> FALSE, cut |-> FALSE, w |-> st.w, E |-> st.E, total |-> st.total, tt |-> st.tt, stages |-> st.stages]
AllSent(s) == s.head /\ Len(s.sent) = s.total
AllGot(s) == s.head = s.hgot /\ s.got = Len(s.sent)

StreamPermits(s, e) ==
  CASE e.op = "head"   -> ~ s.head
    [] e.op = "rec"    -> s.head /\ Len(s.sent) < s.total
    [] e.op = "part"   -> TRUE
    [] e.op = "close"  -> TRUE
    [] e.op = "gone"   -> TRUE
    [] e.op = "killed" -> TRUE
    [] e.op = "ghead"  -> s.head /\ ~ s.hgot /\ e.w = s.w /\ e.E = s.E /\ e.tt = s.tt /\ ~ e.c
    [] e.op = "grec"   -> s.hgot /\ s.got < Len(s.sent) /\ e.rec = Through(s.stages, s.sent[s.got + 1])
    (* nothing more comes out: everything that could come out has *)
    [] e.op = "quiet"  -> s.gone \/ s.cut \/ AllGot(s)
    (* the sender was blocked although its consumer reads *)
    [] e.op = "stuck"  -> s.gone \/ s.cut
    (* storage does not grow with the length of the stream *)
    [] e.op = "memory" -> ~ e.grew
    [] e.op = "end"    ->
         /\ ~ e.hang
         /\ IF ~ AllSent(s) THEN \A k \in 1..Len(e.rcs) : e.rcs[k] # 0
            ELSE IF s.gone \/ s.cut THEN ~ AllGot(s) => \E k \in 1..Len(e.rcs) : e.rcs[k] # 0
            ELSE AllGot(s) /\ e.left = 0 /\ \A k \in 1..Len(e.rcs) : e.rcs[k] = 0
    [] OTHER -> FALSE      \* bytes that are no unit of a stream

StreamNext(s, e) ==
  CASE e.op = "head"  -> [s EXCEPT !.head = TRUE]
    [] e.op = "rec"   -> [s EXCEPT !.sent = Append(@, e.rec)]
    [] e.op = "ghead" -> [s EXCEPT !.hgot = TRUE]
    [] e.op = "grec"  -> [s EXCEPT !.got = @ + 1]
    [] e.op = "gone"  -> [s EXCEPT !.gone = TRUE]
    [] e.op = "killed" -> [s EXCEPT !.cut = TRUE]
    [] OTHER -> s
=============================================================================
