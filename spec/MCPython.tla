------------------------------ MODULE MCPython ------------------------------
EXTENDS SpocPython, TLC, Json
CONSTANTS Depth, MaxRecs
VARIABLES s, depth, last, hist
vars == <<s, depth, last, hist>>
Int1(n) == [t |-> "int", neg |-> FALSE, w |-> <<n>>, d |-> <<CASE n = 3 -> 16392 [] n = 5 -> 16404 [] n = 9 -> 16418, 0, 0, 0>>]
Int2 == [t |-> "int", neg |-> FALSE, w |-> <<1, 7>>, d |-> <<16624, 112, 0, 0>>]
Vals == {Int1(5), Int2, [t |-> "int", neg |-> TRUE, w |-> <<1>>, d |-> <<49136, 0, 0, 0>>], [t |-> "real", d |-> <<16384, 0, 0, 1>>], [t |-> "other"]}
Names == {"p", "q"}
Ops(t) ==
  {[n |-> n, a |-> a, b |-> b, i |-> i] : n \in {"rget", "rput"}, a \in 0..1, b \in 0..1, i \in {-1, 0, 1}}
  \cup {[n |-> n, a |-> a, b |-> 0, file |-> x] : n \in {"read", "write"}, a \in 0..1, x \in Names}
  \cup {[n |-> "write", a |-> a, b |-> 0, file |-> x] : a \in 0..1, x \in {"full", "missing"}}
  \cup {[n |-> "header", a |-> 0, b |-> 0, file |-> x] : x \in Names}
  \cup {[n |-> "make", a |-> 0, b |-> 0, w |-> "h41", c |-> TRUE], [n |-> "comp", a |-> 1, b |-> 0, c |-> TRUE], [n |-> "rnew", a |-> 0, b |-> 1], [n |-> "vbad", a |-> 1, b |-> 0]}
  \cup {[n |-> "wkt", a |-> a, b |-> 0, w |-> w] : a \in 0..1, w \in {"h42", "L65536"}}
  \cup {[n |-> "rset", a |-> 0, b |-> 0, j |-> j, val |-> v] : j \in {1, 4, 9}, v \in Vals}
  \cup {[n |-> "rextra", a |-> 0, b |-> b, vals |-> v] : b \in 0..1, v \in {<< >>, <<Int1(3)>>, <<Int1(3), Int2>>}}
  \cup {[n |-> n, a |-> a, b |-> 0] : n \in {"vget", "vset"}, a \in 0..1}
  \cup {[n |-> "extra", a |-> a, b |-> 0, i |-> i] : a \in 0..1, i \in {-1, 0, 1}}
  \cup (IF Len(t.v) < MaxRecs THEN {[n |-> "vadd", a |-> 0, b |-> b] : b \in 0..1} ELSE {})
  \cup {[n |-> "vdel", a |-> 0, b |-> 0, i |-> i] : i \in 0..(Len(t.v) - 1)}
  \cup {[n |-> "vedit", a |-> 0, b |-> 0, i |-> i, j |-> 6, val |-> v] : i \in 0..(Len(t.v) - 1), v \in {Int1(9), Int2}}

Init == s = Start /\ depth = 0 /\ last = [ok |-> TRUE] /\ hist = << >>
Next ==
  /\ depth < Depth
  /\ \E op \in Ops(s) : \E q \in Step(s, op) : s' = q.s /\ last' = [ok |-> q.ok, op |-> op, before |-> s]
  /\ depth' = depth + 1 /\ hist' = hist
Spec == Init /\ [][Next]_vars
View == <<s, depth>>
GenNext ==
  /\ depth < Depth
  /\ \E n \in {RandomElement({op.n : op \in Ops(s)})} : \E op \in {RandomElement({x \in Ops(s) : x.n = n})} : \E q \in Step(s, op) :
        s' = q.s /\ last' = [ok |-> q.ok, op |-> op, before |-> s] /\ hist' = Append(hist, op)
  /\ depth' = depth + 1
  /\ depth' = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
GenSpec == Init /\ [][GenNext]_vars

AlwaysSound == Sound(s)
Unharmed == ~ last.ok => s.o = last.before.o /\ s.r = last.before.r /\ s.v = last.before.v
(* reading back what was written *)
ReadBack == [][(last'.ok /\ last'.op.n = "read") => \E k \in 1..2 : LET x == s.f[last'.op.file] IN s'.o[k] = [w |-> x.w, c |-> x.c, recs |-> x.recs]]_vars
(* objects share nothing: only the named one changes *)
Framed == [][\A k \in 1..2 : s'.o[k] # s.o[k] => last'.op.a = k - 1]_vars
=============================================================================
