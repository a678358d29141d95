------------------------------ MODULE SpocCodec ------------------------------
(* The chunked loops around the byte compressor: read a buffer of input,     *)
(* call the engine until it leaves room in the output buffer, write what it  *)
(* produced. The engine is the zlib contract: a call returns when the input  *)
(* buffer is used up or the output buffer is full, may hold back output as   *)
(* long as it is not told to finish, and says when the stream has ended.     *)
(* The encoding is abstract: a head, every byte Grow times, a tail.          *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS MaxLen, Bufs, Grows, Forms

Byte == {1, 2}
Encoded(s, g) == <<8>> \o FoldLeft(LAMBDA a, b : a \o [k \in 1..g |-> b], << >>, s) \o <<9>>

VARIABLES data, g,        \* the input and the engine's growth factor (0: runs are dropped to nothing but position is kept)
          ib, ob, form,   \* buffer sizes, "buffer" (all input at once) or "stream"
          pc, phase,      \* control, "deflate" or "inflate"
          src, pos, eof,  \* the input of the phase, next byte, end seen
          ain, aout,      \* avail_in and avail_out
          used, made,     \* engine: bytes consumed, bytes emitted
          ended, out,     \* engine: end of stream; what was written
          mid             \* the compressed form
vars == <<data, g, ib, ob, form, pc, phase, src, pos, eof, ain, aout, used, made, ended, out, mid>>
cfg == <<data, g, ib, ob, form>>

Least(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ data \in UNION {[1..n -> Byte] : n \in 0..MaxLen}
  /\ g \in Grows /\ ib \in Bufs /\ ob \in Bufs /\ form \in Forms
  /\ pc = "read" /\ phase = "deflate" /\ src = data /\ pos = 0 /\ eof = FALSE
  /\ ain = 0 /\ aout = 0 /\ used = 0 /\ made = 0 /\ ended = FALSE /\ out = << >> /\ mid = << >>

(* fill the input buffer; the end is noticed when less than asked for arrives *)
Read ==
  /\ pc = "read"
  /\ LET n == IF form = "buffer" THEN Len(src) - pos ELSE Least(ib, Len(src) - pos)
     IN /\ ain' = n /\ pos' = pos + n
        /\ eof' = (form = "buffer" \/ n < ib)
        /\ pc' = IF phase = "inflate" /\ n = 0 THEN "broken" ELSE "call"
  /\ UNCHANGED <<cfg, phase, src, aout, used, made, ended, out, mid>>

(* everything the engine could have emitted after consuming u bytes *)
Whole == IF phase = "deflate" THEN Encoded(src, g) ELSE data
Ready(u) ==
  IF phase = "deflate" THEN 1 + g * u
  ELSE LET body == u - 1 IN IF body <= 0 THEN 0 ELSE Least(body \div g, Len(data))
Finish == phase = "deflate" /\ eof

(* one call: c bytes consumed, e bytes emitted *)
Call ==
  /\ pc = "call"
  /\ \E c \in 0..ain, e \in 0..ob :
       LET u == used + c
           end == IF phase = "deflate" THEN Finish /\ u = Len(src) /\ made + e = Len(Whole)
                  ELSE u = Len(src) /\ made + e = Len(Whole)
           top == IF Finish /\ u = Len(src) THEN Len(Whole) ELSE Ready(u)
       IN /\ made + e <= top
          /\ ~ ended \/ (c = 0 /\ e = 0)
          (* it returns only for lack of input, lack of room, or at the end *)
          /\ end \/ ended \/ e = ob \/ c = ain
          (* with room left, finishing means all was emitted; inflating means nothing more can be said *)
          /\ (e < ob /\ ~ ended) => /\ Finish => end
                                    /\ phase = "inflate" => made + e = Ready(u)
          /\ used' = u /\ made' = made + e /\ ended' = (ended \/ end)
          /\ ain' = ain - c /\ aout' = ob - e
          /\ out' = out \o SubSeq(Whole, made + 1, made + e)
  /\ pc' = "more"
  /\ UNCHANGED <<cfg, phase, src, pos, eof, mid>>

More ==
  /\ pc = "more"
  /\ pc' = IF aout = 0 THEN "call"
           ELSE IF (phase = "deflate" /\ eof) \/ (phase = "inflate" /\ (ended \/ form = "buffer")) THEN "done" ELSE "read"
  /\ UNCHANGED <<cfg, phase, src, pos, eof, ain, aout, used, made, ended, out, mid>>

(* the compressed form becomes the input of the decompressor *)
Turn ==
  /\ pc = "done" /\ phase = "deflate"
  /\ phase' = "inflate" /\ pc' = "read" /\ src' = out /\ mid' = out /\ out' = << >>
  /\ pos' = 0 /\ eof' = FALSE /\ ain' = 0 /\ aout' = 0 /\ used' = 0 /\ made' = 0 /\ ended' = FALSE
  /\ UNCHANGED cfg

Next == Read \/ Call \/ More \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
NeverBroken == pc # "broken"
NothingLeft == pc = "more" /\ aout # 0 => ain = 0
Deflated == pc = "done" /\ phase = "deflate" => ended /\ used = Len(data) /\ out = Encoded(data, g)
Restored == pc = "done" /\ phase = "inflate" => ended /\ out = data
Progress == <>(pc = "done" /\ phase = "inflate")
=============================================================================
