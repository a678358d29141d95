------------------------------ MODULE SpocGeom ------------------------------
(* Extents, boxes, voxels, encodings, equality, order. A double is its bit       *)
(* pattern, four 16-bit limbs, most significant first.                       *)
EXTENDS Words, FiniteSets, SequencesExt, Functions

Half == 32768
Negative(d) == d[1] >= Half
Mag(d) == <<d[1] % Half, d[2], d[3], d[4]>>
ZeroMag == <<0, 0, 0, 0>>
IsZero(d) == Mag(d) = ZeroMag
IsNaN(d) == WLess(<<32752, 0, 0, 0>>, Mag(d))

(* IEEE comparison *)
DEq(a, b) == ~ IsNaN(a) /\ ~ IsNaN(b) /\ (a = b \/ (IsZero(a) /\ IsZero(b)))
DLess(a, b) ==
  /\ ~ IsNaN(a) /\ ~ IsNaN(b) /\ ~ DEq(a, b)
  /\ IF Negative(a) THEN (~ Negative(b) \/ WLess(Mag(b), Mag(a))) ELSE (~ Negative(b) /\ WLess(Mag(a), Mag(b)))
DLeq(a, b) == DLess(a, b) \/ DEq(a, b)

(* points are sequences of three *)
PEq(p, q) == \A k \in 1..3 : DEq(p[k], q[k])
PLess(p, q) ==
  \/ DLess(p[1], q[1])
  \/ DEq(p[1], q[1]) /\ DLess(p[2], q[2])
  \/ DEq(p[1], q[1]) /\ DEq(p[2], q[2]) /\ DLess(p[3], q[3])

(* a value has fields that are doubles (d) and fields that are words (u) *)
Equal(a, b) ==
  /\ Len(a.d) = Len(b.d) /\ \A k \in 1..Len(a.d) : DEq(a.d[k], b.d[k])
  /\ a.u = b.u

(* the number of different points *)
Classes(ps) == Cardinality({k \in 1..Len(ps) : \A j \in 1..(k - 1) : ~ PEq(ps[j], ps[k])})

---------------------------------------------------------------------------
(* extents are sequences of six: the lowest and the highest corner *)
Highest == <<32751, 65535, 65535, 65535>>
Lowest == <<65519, 65535, 65535, 65535>>
IsLeast(m, S, none) == IF S = {} THEN m = none ELSE (\E x \in S : DEq(m, x)) /\ \A x \in S : DLeq(m, x)
IsGreatest(m, S, none) == IF S = {} THEN m = none ELSE (\E x \in S : DEq(m, x)) /\ \A x \in S : DLeq(x, m)
IsExtent(e, ps) ==
  \A k \in 1..3 : LET S == {ps[n][k] : n \in 1..Len(ps)}
                  IN IsLeast(e[k], S, Highest) /\ IsGreatest(e[k + 3], S, Lowest)
IsUnion(e, a, b) ==
  \A k \in 1..3 : IsLeast(e[k], {a[k], b[k]}, Highest) /\ IsGreatest(e[k + 3], {a[k + 3], b[k + 3]}, Lowest)

---------------------------------------------------------------------------
(* voxels, on an integer lattice *)
VoxelOf(p, a, res) == [k \in 1..3 |-> (p[k] - a[k]) \div res]
Corner(ps) == [k \in 1..3 |-> CHOOSE m \in {ps[n][k] : n \in 1..Len(ps)} : \A n \in 1..Len(ps) : m <= ps[n][k]]
VoxelsOf(ps, a, res) == [n \in 1..Len(ps) |-> VoxelOf(ps[n], a, res)]
(* far apart: coordinates are pairs of digits, base 2^20 (a voxel number has *)
(* the base 2^20 / res, res a power of two)                                  *)
Far == 1048576
FarVoxelOf(p, a, res) ==
  [k \in 1..3 |-> LET d == p[k][2] - a[k][2]
                  IN <<p[k][1] - a[k][1] + d \div Far, (d % Far) \div res>>]
(* the groups: what is listed under each voxel, indexes counted from zero *)
GroupOf(vs, v) == SelectSeq([n \in 1..Len(vs) |-> n - 1], LAMBDA n : vs[n + 1] = v)
IsSet(s, vs) == ToSet(s) = ToSet(vs) /\ Len(s) = Cardinality(ToSet(vs))
IsMap(m, vs) ==
  /\ IsSet([k \in 1..Len(m) |-> m[k][1]], vs)
  /\ \A k \in 1..Len(m) : m[k][2] = GroupOf(vs, m[k][1])
---------------------------------------------------------------------------
(* boxes: what lies inside a closed box, in order *)
Inside(p, e) == \A k \in 1..3 : DLeq(e[k], p[k]) /\ DLeq(p[k], e[k + 3])
Kept(ps, e) == SelectSeq([n \in 1..Len(ps) |-> n], LAMBDA n : Inside(ps[n], e))
Cropped(ps, e) == [n \in 1..Len(Kept(ps, e)) |-> ps[Kept(ps, e)[n]]]

(* numbers on an integer lattice *)
Abs(n) == IF n < 0 THEN -n ELSE n
Square(n) == n * n
Area(e) == (e[4] - e[1]) * (e[5] - e[2])
Volume(e) == Area(e) * (e[6] - e[3])
Sum(ps, k) == FoldLeft(LAMBDA x, p : x + p[k], 0, ps)
Distance2(p, q) == Square(p[1] - q[1]) + Square(p[2] - q[2]) + Square(p[3] - q[3])
IsSqrt(f, n) == Square(f) <= n /\ n < Square(f + 1)   \* rounded down
Plus(p, q) == [k \in 1..3 |-> p[k] + q[k]]
Minus(p, q) == [k \in 1..3 |-> p[k] - q[k]]
Power10 == <<1, 10, 100, 1000, 10000>>
(* equal when rounded to a number of decimals; the lattice has unit / 2^m *)
AboutEqual(p, q, m, digits) ==
  \A k \in 1..3 : IF digits > 4 THEN p[k] = q[k] ELSE 2 * Abs(p[k] - q[k]) * Power10[digits + 1] < 2 ^ m

(* coordinates relative to a box, in units of 2^-62 of its sides: a word *)
One62 == <<16384, 0, 0, 0>>
IsRelative(w, p, lo, side) ==     \* on a lattice, sides up to 2^14
  LET t == (p - lo) * 16384
  IN /\ WLeq(w, One62)
     /\ IF t % side # 0 THEN w[1] = t \div side
        ELSE w = <<t \div side, 0, 0, 0>> \/ (side \notin {2 ^ j : j \in 0..14} /\ w[1] = t \div side - 1)
=============================================================================
