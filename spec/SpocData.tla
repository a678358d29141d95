------------------------------ MODULE SpocData ------------------------------
(* Point clouds. A record is a tuple                                        *)
(*   <<x, y, z, c, p, i, r, g, b, extra>>                                   *)
(* with coordinates as lattice integers (or 4-limb bit patterns where only  *)
(* identity matters), c, p 2-limb words, i, r, g, b 1-limb words and extra  *)
(* a sequence of 4-limb words.                                              *)
(* A cloud is [k |-> "spoc", w |-> SRS token, c |-> compressed?,            *)
(*             E |-> number of extra fields, recs |-> sequence of records]. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, Words

X == 1   Y == 2   Z == 3   C == 4   P == 5
I == 6   R == 7   G == 8   B == 9   EX == 10

FieldIdx == [x |-> X, y |-> Y, z |-> Z, c |-> C, p |-> P, i |-> I, r |-> R, g |-> G, b |-> B]
FieldNames == DOMAIN FieldIdx
CoordNames == {"x", "y", "z"}
WidthOf(f) == CASE f \in {"c", "p"} -> 2 [] f \in {"i", "r", "g", "b"} -> 1 [] OTHER -> 4

(* A field designator is [f |-> name] with name in FieldNames, or           *)
(* [f |-> "e", j |-> index] (0-based), or [f |-> "?"] for an invalid name.  *)
IsField(d) == d.f \in FieldNames \/ d.f = "e"
HasField(cl, d) == d.f # "e" \/ d.j < cl.E
Width(d) == WidthOf(d.f)

Get(rec, d) == IF d.f = "e" THEN rec[EX][d.j + 1] ELSE rec[FieldIdx[d.f]]
Put(rec, d, v) == IF d.f = "e" THEN [rec EXCEPT ![EX][d.j + 1] = v]
                              ELSE [rec EXCEPT ![FieldIdx[d.f]] = v]

XYZ(rec) == <<rec[1], rec[2], rec[3]>>
Column(recs, d) == [k \in 1..Len(recs) |-> Get(recs[k], d)]

IsCloud(v) == v.k = "spoc"
(* stored form of a cloud: a file without records states no extra fields *)
Cloud(w, c, recs) ==
  [k |-> "spoc", w |-> w, c |-> c,
   E |-> IF recs = << >> THEN 0 ELSE Len(recs[1][EX]), recs |-> recs]
WithRecs(cl, recs) == Cloud(cl.w, cl.c, recs)

ValidCloud(cl) ==
  /\ \A n \in 1..Len(cl.recs) : Len(cl.recs[n][EX]) = cl.E
  /\ cl.E \in 0..255

MinOf(S) == CHOOSE m \in S : \A s \in S : m <= s
MaxOf(S) == CHOOSE m \in S : \A s \in S : m >= s
(* linear-time minimum and maximum along an axis *)
MinAx(recs, ax) == FoldLeft(LAMBDA m, q : IF q[ax] < m THEN q[ax] ELSE m, recs[1][ax], recs)
MaxAx(recs, ax) == FoldLeft(LAMBDA m, q : IF q[ax] > m THEN q[ax] ELSE m, recs[1][ax], recs)
MinCorner(recs) == <<MinAx(recs, 1), MinAx(recs, 2), MinAx(recs, 3)>>
MaxCorner(recs) == <<MaxAx(recs, 1), MaxAx(recs, 2), MaxAx(recs, 3)>>

Map(recs, F(_)) == [n \in 1..Len(recs) |-> F(recs[n])]

Abs(n) == IF n < 0 THEN -n ELSE n
=============================================================================
