----------------------------- MODULE SpocRadius -----------------------------
(* Radius search. Points are triples on an integer lattice. A search has the *)
(* points, the query and candidate index lists, a limit, and the radius      *)
(* given by its square r2 (in lattice units) and an integer rc not below it. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
Sq(n) == n * n

(* a and b are not further apart than the radius *)
Within(a, b, r2, rc) ==
  /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= rc
  /\ Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + (IF Len(a) = 2 THEN 0 ELSE Sq(a[3] - b[3])) <= r2

Min(a, b) == IF a < b THEN a ELSE b

(* the lists that are right for one query: sure and possible are the sets of *)
(* candidates that must and that may count as within the radius              *)
RightList(l, sure, possible, limit) ==
  LET got == {l[k] : k \in 1..Len(l)}
  IN /\ Cardinality(got) = Len(l)
     /\ got \subseteq possible
     /\ Len(l) <= limit
     /\ Len(l) = limit \/ sure \subseteq got

(* a crowd: every candidate is there rep times, the answer is told by the     *)
(* number of times each was given                                            *)
SumTo[c \in Seq(Nat), n \in Nat] == IF n = 0 THEN 0 ELSE SumTo[c, n - 1] + c[n]
RightCounts(c, in, rep, limit) ==
  LET total == SumTo[c, Len(c)]
  IN /\ \A k \in 1..Len(c) : c[k] >= 0 /\ c[k] <= (IF in[k] THEN rep ELSE 0)
     /\ total <= limit
     /\ total = limit \/ \A k \in 1..Len(c) : in[k] => c[k] = rep

---------------------------------------------------------------------------
(* The algorithm: candidates are grouped by cell, and are drawn from the     *)
(* cells around the query's cell in any order.                               *)
Cell(p, res) == [k \in DOMAIN p |-> p[k] \div res]
Near(c, d) == \A k \in DOMAIN c : Abs(c[k] - d[k]) <= 1
=============================================================================
