------------------------------ MODULE MCObject ------------------------------
(* All histories of a few operations on two objects and one vector.          *)
EXTENDS SpocObject, TLC, Json

CONSTANTS MaxRecs, Depth

Rec(v, E) == [k \in 1..9 |-> v] \o [j \in 1..E |-> v + j]
RecSet == {Rec(1, 0), Rec(2, 0), Rec(3, 1)}
Lists == {<< >>, <<Rec(1, 0)>>, <<Rec(3, 1)>>, <<Rec(1, 0), Rec(3, 1)>>}

VARIABLES s, depth, last, hist
vars == <<s, depth, last, hist>>

Ops(st) ==
  LET obj == {0, 1}
      small(a) == Len(st.o[a + 1].recs) < MaxRecs
  IN {[n |-> "make", a |-> a, b |-> 0, w |-> "41", c |-> TRUE, recs |-> r] : a \in obj, r \in Lists}
     \cup {[n |-> "makev", a |-> a, b |-> 0, w |-> "42", c |-> FALSE, m |-> <<7, 200>>, recs |-> <<Rec(2, 0)>>] : a \in obj}
     \cup {[n |-> x, a |-> a, b |-> b] : x \in {"copy", "moveassign", "swap", "clone", "setfrom"}, a \in obj, b \in obj}
     \cup {[n |-> x, a |-> a, b |-> 0] : x \in {"setall", "movein", "moveout", "vcopy"}, a \in obj}
     \cup UNION {{[n |-> "push", a |-> a, b |-> 0, rec |-> q] : q \in RecSet} : a \in {x \in obj : small(x)}}
     \cup UNION {{[n |-> "pushself", a |-> a, b |-> b, i |-> i - 1] : i \in 1..Len(st.o[b + 1].recs)} : a \in {x \in obj : small(x)}, b \in obj}
     \cup {[n |-> "set", a |-> a, b |-> 0, i |-> i, rec |-> q] : a \in obj, i \in 0..1, q \in RecSet}
     \cup {[n |-> "resize", a |-> a, b |-> 0, i |-> i] : a \in obj, i \in {0, 1, 256}}
     \cup {[n |-> "wkt", a |-> 0, b |-> 0, w |-> "42"], [n |-> "comp", a |-> 1, b |-> 0, c |-> TRUE], [n |-> "vedit", a |-> 0, b |-> 0, i |-> 7]}
     \cup {[n |-> "vec", a |-> 0, b |-> 0, recs |-> r] : r \in Lists}

Init == s = [o |-> <<Empty, Empty>>, v |-> <<<< >>>>] /\ depth = 0 /\ last = [ok |-> TRUE] /\ hist = << >>
Next ==
  /\ depth < Depth
  /\ \E op \in Ops(s) : \E r \in Step(s, op) :
       /\ s' = [o |-> r.o, v |-> r.v] /\ last' = [ok |-> r.ok, op |-> op, before |-> s]
  /\ depth' = depth + 1 /\ hist' = hist
Spec == Init /\ [][Next]_vars
View == <<s, depth>>

(* generation of behaviours *)
GenNext ==
  /\ depth < Depth
  /\ \E op \in {RandomElement(Ops(s))} : \E r \in Step(s, op) :
       /\ s' = [o |-> r.o, v |-> r.v] /\ last' = [ok |-> r.ok, op |-> op, before |-> s]
       /\ hist' = Append(hist, op)
  /\ depth' = depth + 1
  /\ depth' = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
GenSpec == Init /\ [][GenNext]_vars

---------------------------------------------------------------------------
Agree == Consistent(s)
Headers == \A k \in 1..2 : LET h == Header(s.o[k], FALSE) IN h # << >> => h[4] = Len(s.o[k].recs) /\ \A n \in 1..Len(s.o[k].recs) : Extra(s.o[k].recs[n]) = h[3]
Unharmed == ~ last.ok => s = last.before
Framed == [][\A k \in 1..2 : (k - 1) \notin Targets(last'.op) => s'.o[k] = s.o[k]]_vars
=============================================================================
