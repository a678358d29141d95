----------------------------- MODULE SpocPython -----------------------------
(* The Python module: cloud objects o, record variables r, one list of      *)
(* records v, and the files f of the program. Records are sequences of nine *)
(* fields (words of 4,4,4,2,2,1,1,1,1 limbs) and the extra fields (4 limbs).*)
(* Step(s, op) is the set of permitted outcomes [ok, s, x] with x what the  *)
(* operation returns (<< >> for nothing).                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Extra(q) == Len(q) - 9
Uniform(recs) == \A n \in 1..Len(recs) : Extra(recs[n]) = Extra(recs[1])
EOf(recs) == IF recs = << >> THEN 0 ELSE Extra(recs[1])
WidthAt(n) == IF n <= 3 THEN 4 ELSE IF n <= 5 THEN 2 ELSE IF n <= 9 THEN 1 ELSE 4
Zero(w) == [k \in 1..w |-> 0]
ZeroRec == [n \in 1..9 |-> Zero(WidthAt(n))]
None == [k |-> "none"]

(* a value given by the program: [t |-> "int", neg, w] with the minimal     *)
(* number of limbs, [t |-> "real", w], or [t |-> "other"]                   *)
FitsAt(n, v) ==
  IF n <= 3 THEN v.t \in {"real", "int"}       \* an integer becomes the number v.d
  ELSE v.t = "int" /\ ~ v.neg /\ Len(v.w) <= WidthAt(n)
StoredAt(n, v) == IF n <= 3 THEN v.d ELSE Zero(WidthAt(n) - Len(v.w)) \o v.w

Long(w) == w \in {"L65536", "L70000"}
Representable(cl) == EOf(cl.recs) <= 255 /\ ~ Long(cl.w)
File(s, n) == IF n \in DOMAIN s.f THEN s.f[n] ELSE None
SetFile(s, n, x) == [s EXCEPT !.f = [m \in DOMAIN s.f \cup {n} |-> IF m = n THEN x ELSE s.f[m]]]

Fine(s) == [ok |-> TRUE, s |-> s, x |-> << >>]
Gives(s, x) == [ok |-> TRUE, s |-> s, x |-> x]
Raised(s) == [ok |-> FALSE, s |-> s, x |-> << >>]
If(cond, s, t) == {IF cond THEN Fine(t) ELSE Raised(s)}

Step(s, op) ==
  LET A == s.o[op.a + 1]
  IN CASE op.n = "make"  -> {Fine([s EXCEPT !.o[op.a + 1] = [w |-> op.w, c |-> op.c, recs |-> << >>]])}
       [] op.n = "read"  -> LET x == File(s, op.file)
                            IN If(x.k = "spoc", s, [s EXCEPT !.o[op.a + 1] = [w |-> x.w, c |-> x.c, recs |-> x.recs]])
       [] op.n = "header" ->
            LET x == File(s, op.file)
            IN IF x.k = "spoc" THEN {Gives(s, <<x.w, x.c, EOf(x.recs), <<0, Len(x.recs)>>, 0, 1>>)}
               ELSE IF x.k = "junk" /\ "hdr" \in DOMAIN x THEN {Gives(s, x.hdr)} ELSE {Raised(s)}
       [] op.n = "write" ->
            IF op.file \in {"full", "missing"} THEN {Raised(s)}       \* cannot be written
            ELSE IF Representable(A) THEN {Fine(SetFile(s, op.file, [k |-> "spoc", w |-> A.w, c |-> A.c, recs |-> A.recs]))}
            ELSE {Raised(s), Raised(SetFile(s, op.file, None)), Raised(SetFile(s, op.file, [k |-> "empty"])), Raised(SetFile(s, op.file, [k |-> "part"]))}
       [] op.n = "file"  -> {Fine(SetFile(s, op.file, op.x))}        \* someone else writes it
       [] op.n = "wkt"   -> {Fine([s EXCEPT !.o[op.a + 1].w = op.w])}
       [] op.n = "comp"  -> {Fine([s EXCEPT !.o[op.a + 1].c = op.c])}
       [] op.n = "rnew"  -> {Fine([s EXCEPT !.r[op.b + 1] = ZeroRec])}
       [] op.n = "rget"  -> IF op.i >= 0 /\ op.i < Len(A.recs) THEN {Fine([s EXCEPT !.r[op.b + 1] = A.recs[op.i + 1]])} ELSE {Raised(s)}
       [] op.n = "rput"  -> IF op.i >= 0 /\ op.i < Len(A.recs) THEN If(Extra(s.r[op.b + 1]) = EOf(A.recs), s, [s EXCEPT !.o[op.a + 1].recs[op.i + 1] = s.r[op.b + 1]])
                            ELSE {Raised(s)}
       [] op.n = "rset"  -> IF FitsAt(op.j, op.val) THEN {Fine([s EXCEPT !.r[op.b + 1][op.j] = StoredAt(op.j, op.val)])} ELSE {Raised(s)}
       [] op.n = "rextra" -> IF \A k \in 1..Len(op.vals) : FitsAt(10, op.vals[k])
                             THEN {Fine([s EXCEPT !.r[op.b + 1] = SubSeq(@, 1, 9) \o [k \in 1..Len(op.vals) |-> StoredAt(10, op.vals[k])]])}
                             ELSE {Raised(s)}
       [] op.n = "vget"  -> {Fine([s EXCEPT !.v = A.recs])}
       [] op.n = "vset"  -> If(Uniform(s.v), s, [s EXCEPT !.o[op.a + 1].recs = s.v])
       [] op.n = "vadd"  -> {Fine([s EXCEPT !.v = Append(@, s.r[op.b + 1])])}       \* a record with the same values
       [] op.n = "vdel"  -> {Fine([s EXCEPT !.v = SubSeq(@, 1, op.i) \o SubSeq(@, op.i + 2, Len(@))])}
       [] op.n = "vedit" -> IF FitsAt(op.j, op.val) THEN {Fine([s EXCEPT !.v[op.i + 1][op.j] = StoredAt(op.j, op.val)])} ELSE {Raised(s)}
       [] op.n = "vbad"  -> {Raised(s)}         \* a list of something else
       [] op.n = "extra" ->
            IF op.i < 0 THEN {Raised(s)}
            ELSE IF A.recs = << >> THEN {Gives(s, << >>), Raised(s)}
            ELSE IF op.i < EOf(A.recs) THEN {Gives(s, [k \in 1..Len(A.recs) |-> A.recs[k][10 + op.i]])} ELSE {Raised(s)}

Start == [o |-> <<[w |-> "h", c |-> FALSE, recs |-> << >>], [w |-> "h", c |-> FALSE, recs |-> << >>]>>,
          r |-> <<ZeroRec, ZeroRec>>, v |-> << >>, f |-> [n \in {} |-> None]]
Sound(s) == (\A k \in 1..Len(s.o) : Uniform(s.o[k].recs)) /\ \A n \in DOMAIN s.f : s.f[n].k = "spoc" => Representable(s.f[n])
=============================================================================
