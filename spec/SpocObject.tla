----------------------------- MODULE SpocObject -----------------------------
(* Cloud objects and record vectors of a program. A record is a sequence of  *)
(* nine fields followed by its extra fields. A cloud is [w, c, m, recs]:      *)
(* SRS text, compression flag, version numbers, records.                     *)
(* Step(s, op) is the set of permitted outcomes [ok, o, v].                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Extra(q) == Len(q) - 9
Uniform(recs) == \A n \in 1..Len(recs) : Extra(recs[n]) = Extra(recs[1])
EOf(recs) == IF recs = << >> THEN 0 ELSE Extra(recs[1])
Default == <<0, 1>>   \* the version of the library
Empty == [w |-> "-", c |-> FALSE, m |-> Default, recs |-> << >>]
Wide(q, E) == IF Extra(q) >= E THEN SubSeq(q, 1, 9 + E) ELSE q \o [j \in 1..(E - Extra(q)) |-> 0]

(* which columns hold nothing but zeros: class, id, intensity, red, green, *)
(* blue, all colours, extra fields                                         *)
NoneIn(recs, k) == IF \A n \in 1..Len(recs) : recs[n][k] = 0 THEN 1 ELSE 0
AllZero(recs) ==
  [k \in 1..7 |-> IF k < 7 THEN NoneIn(recs, k + 3) ELSE IF \A j \in 7..9 : NoneIn(recs, j) = 1 THEN 1 ELSE 0]
  \o [k \in 1..EOf(recs) |-> NoneIn(recs, k + 9)]

(* what the header says; << >> if there can be none *)
Header(cl, long) ==
  IF EOf(cl.recs) > 255 \/ long THEN << >>
  ELSE <<cl.w, IF cl.c THEN 1 ELSE 0, EOf(cl.recs), Len(cl.recs), cl.m[1], cl.m[2]>>

Done(s, o, v) == [ok |-> TRUE, o |-> o, v |-> v]
Refused(s) == [ok |-> FALSE, o |-> s.o, v |-> s.v]
Put(s, a, cl) == Done(s, [s.o EXCEPT ![a + 1] = cl], s.v)
Recs(s, a, recs) == Put(s, a, [s.o[a + 1] EXCEPT !.recs = recs])
If(cond, s, r) == {IF cond THEN r ELSE Refused(s)}

(* objects and vectors are numbered from zero *)
Step(s, op) ==
  LET A == s.o[op.a + 1]
      B == s.o[op.b + 1]
      W == s.v[op.b + 1]
  IN CASE op.n = "new"  -> {Put(s, op.a, Empty)}
       [] op.n \in {"make", "makev"} ->
            If(Uniform(op.recs), s, Put(s, op.a, [w |-> op.w, c |-> op.c, m |-> IF op.n = "makev" THEN op.m ELSE Default, recs |-> op.recs]))
       [] op.n \in {"copy", "assign"} -> {Put(s, op.a, B)}
       (* a moved-from object keeps its value or becomes empty *)
       [] op.n \in {"moveassign", "movector"} ->
            {Put(s, op.a, B)} \cup
            (IF op.a = op.b THEN {} ELSE {Done(s, [s.o EXCEPT ![op.a + 1] = B, ![op.b + 1] = x], s.v) : x \in {Empty, [B EXCEPT !.recs = << >>], [Empty EXCEPT !.c = B.c, !.m = B.m]}})
       [] op.n \in {"swap", "stdswap"} -> {Done(s, [s.o EXCEPT ![op.a + 1] = B, ![op.b + 1] = A], s.v)}
       [] op.n = "clone" -> {Put(s, op.a, [B EXCEPT !.recs = << >>])}
       [] op.n = "push" -> If(A.recs = << >> \/ Extra(op.rec) = EOf(A.recs), s, Recs(s, op.a, Append(A.recs, op.rec)))
       [] op.n = "pushself" ->
            LET q == B.recs[op.i + 1] IN If(A.recs = << >> \/ Extra(q) = EOf(A.recs), s, Recs(s, op.a, Append(A.recs, q)))
       [] op.n = "set" -> If(op.i < Len(A.recs) /\ Extra(op.rec) = EOf(A.recs), s, Recs(s, op.a, [A.recs EXCEPT ![op.i + 1] = op.rec]))
       [] op.n = "setself" -> {Recs(s, op.a, [A.recs EXCEPT ![op.i + 1] = A.recs[op.b + 1]])}
       [] op.n = "setall" -> If(Uniform(W), s, Recs(s, op.a, W))
       [] op.n = "setfrom" -> {Recs(s, op.a, B.recs)}
       [] op.n = "movein" ->      \* the vector is empty afterwards
            If(Uniform(W), s, Done(s, [s.o EXCEPT ![op.a + 1].recs = W], [s.v EXCEPT ![op.b + 1] = << >>]))
       [] op.n = "moveout" -> {Done(s, [s.o EXCEPT ![op.a + 1].recs = << >>], [s.v EXCEPT ![op.b + 1] = A.recs])}
       [] op.n \in {"resize", "moveback"} -> {Recs(s, op.a, [n \in 1..Len(A.recs) |-> Wide(A.recs[n], op.i)])}
       [] op.n = "wkt" -> {Put(s, op.a, [A EXCEPT !.w = op.w])}
       [] op.n = "comp" -> {Put(s, op.a, [A EXCEPT !.c = op.c])}
       [] op.n = "vec" -> {Done(s, s.o, [s.v EXCEPT ![op.b + 1] = op.recs])}
       [] op.n = "vcopy" -> {Done(s, s.o, [s.v EXCEPT ![op.b + 1] = A.recs])}
       [] op.n = "vedit" -> {Done(s, s.o, [s.v EXCEPT ![op.b + 1] = [n \in 1..Len(W) |-> [W[n] EXCEPT ![4] = op.i]]])}

(* which objects an operation may change *)
Targets(op) ==
  CASE op.n \in {"vec", "vcopy", "vedit"} -> {}
    [] op.n \in {"swap", "stdswap", "moveassign", "movector"} -> {op.a, op.b}
    [] OTHER -> {op.a}

Consistent(s) == \A k \in 1..Len(s.o) : Uniform(s.o[k].recs)
=============================================================================
