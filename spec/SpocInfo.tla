------------------------------ MODULE SpocInfo ------------------------------
(* What info reports about a cloud: a sequence of items [k |-> key, ...].    *)
(* Numbers are [int |-> lattice value], words [w |-> 4 limbs], texts         *)
(* [s |-> ...]. sw has the settings j(son), a (header), s(ummary), l         *)
(* (classes), m(etrics), c(ompact), q(uartiles).                             *)
EXTENDS SpocOps

Num(n) == [int |-> n]
Word(x) == [w |-> Resize(x, 4)]
Text(x) == [s |-> x]

---------------------------------------------------------------------------
(* values in ascending order; those of large sequences are in the order in    *)
(* which TLC keeps sets, which is looked at                                   *)
Ascending(col, Less(_, _), Tag(_)) ==
  LET n == Len(col)
      order == TLCEval(SetToSeq(TLCEval({Tag(col[k]) \o <<k>> : k \in 1..n})))
      y == TLCEval([j \in 1..n |-> col[order[j][Len(order[j])]]])
  IN IF n >= 400 /\ \A j \in 2..n : ~ Less(y[j], y[j - 1]) THEN y ELSE SortSeq(col, Less)

(* the statistics of a column; less and minus are those of its type          *)
StatsD(col, sw) ==
  LET y == Ascending(col, LAMBDA p, q : p < q, LAMBDA p : <<p>>)
      n == Len(y)
      at(k) == y[k + 1]
      mm == [range |-> Num(at(n - 1) - at(0)), min |-> Num(at(0)), max |-> Num(at(n - 1))]
      qs == [range |-> Num(at(n - 1) - at(0)), q0 |-> Num(at(0)), q1 |-> Num(at(n \div 4)), q2 |-> Num(at(n \div 2)),
             q3 |-> Num(at((3 * n) \div 4)), q4 |-> Num(at(n - 1))]
      steps == [range |-> Num(at(n - 1) - at(0)), q0 |-> Num(at(0)), d1 |-> Num(at(n \div 4) - at(0)), d2 |-> Num(at(n \div 2) - at(n \div 4)),
                d3 |-> Num(at((3 * n) \div 4) - at(n \div 2)), d4 |-> Num(at(n - 1) - at((3 * n) \div 4)), q4 |-> Num(at(n - 1))]
  IN IF ~ sw.q THEN mm ELSE IF sw.j \/ ~ sw.c THEN qs ELSE steps

StatsW(column, sw) ==
  LET y == Ascending(TLCEval([k \in 1..Len(column) |-> Resize(column[k], 4)]), WLess, LAMBDA p : p)
      n == Len(y)
      at(k) == y[k + 1]
      minus(p, q) == Word(WSub(p, q))
      mm == [range |-> minus(at(n - 1), at(0)), min |-> Word(at(0)), max |-> Word(at(n - 1))]
      qs == [range |-> minus(at(n - 1), at(0)), q0 |-> Word(at(0)), q1 |-> Word(at(n \div 4)), q2 |-> Word(at(n \div 2)),
             q3 |-> Word(at((3 * n) \div 4)), q4 |-> Word(at(n - 1))]
      steps == [range |-> minus(at(n - 1), at(0)), q0 |-> Word(at(0)), d1 |-> minus(at(n \div 4), at(0)), d2 |-> minus(at(n \div 2), at(n \div 4)),
                d3 |-> minus(at((3 * n) \div 4), at(n \div 2)), d4 |-> minus(at(n - 1), at((3 * n) \div 4)), q4 |-> Word(at(n - 1))]
  IN IF ~ sw.q THEN mm ELSE IF sw.j \/ ~ sw.c THEN qs ELSE steps

Sized(st, n, sw) == IF sw.j \/ sw.c THEN st ELSE [size |-> Num(n)] @@ st
Nothing == [size |-> Num(0), min |-> Num(0), max |-> Num(0)]

FieldKeys == <<"x", "y", "z", "c", "p", "i", "r", "g", "b">>
SummaryItems(a, sw) ==
  IF a.recs = << >>
  THEN IF ~ sw.j /\ sw.c THEN << >> ELSE [k \in 1..9 |-> [k |-> FieldKeys[k], v |-> Nothing]]
  ELSE [k \in 1..9 |-> [k |-> FieldKeys[k],
                        v |-> Sized(IF k <= 3 THEN StatsD([n \in 1..Len(a.recs) |-> a.recs[n][k]], sw)
                                                ELSE StatsW([n \in 1..Len(a.recs) |-> a.recs[n][k]], sw), Len(a.recs), sw)]]
       \o [j \in 1..a.E |-> [k |-> "e" \o ToString(j - 1), v |-> Sized(StatsW([n \in 1..Len(a.recs) |-> a.recs[n][EX][j]], sw), Len(a.recs), sw)]]

HeaderItems(a) ==
  <<[k |-> "major_version", v |-> Num(0)], [k |-> "minor_version", v |-> Num(1)], [k |-> "wkt", v |-> Text(a.w)],
    [k |-> "total_points", v |-> Num(Len(a.recs))], [k |-> "compressed", v |-> Num(IF a.c THEN 1 ELSE 0)]>>

ClassName(c) ==
  LET names == <<"unclassified", "unknown", "ground", "low_veg", "med_veg", "high_veg", "building", "low_noise", "reserved", "water", "rail", "road",
                 "reserved", "wire_guard", "wire_conductor", "transmission_tower", "wire_connector", "bridge_deck", "high_noise",
                 "overhead_structure", "ignored", "snow", "exclusion">>
  IN IF c[1] # 0 \/ c[2] > 255 THEN "undefined"
     ELSE IF c[2] < 23 THEN names[c[2] + 1] ELSE IF c[2] < 64 THEN "reserved" ELSE "user_defined"
ClassItems(a, sw) ==
  LET col == [n \in 1..Len(a.recs) |-> a.recs[n][C]]
  IN {[k |-> "cls", c |-> x, n |-> Cardinality({n \in 1..Len(col) : col[n] = x}), name |-> IF sw.j THEN "" ELSE ClassName(x)] : x \in ToSet(col)}

---------------------------------------------------------------------------
(* densities are numbers of points per area or volume; v6 is the reported    *)
(* density in millionths, r3 its inverse in thousandths, per square or cubic *)
(* lattice step for the extent and per grid cell otherwise                   *)
Cells(recs, step, dims) ==
  LET mn == TLCEval(MinCorner(recs)) IN {[k \in dims |-> (recs[n][k] - mn[k]) \div step] : n \in 1..Len(recs)}
RECURSIVE LongDivision(_, _, _, _)
LongDivision(q, rest, area, k) == IF k = 0 THEN q ELSE LongDivision(10 * q + (10 * rest) \div area, (10 * rest) % area, area, k - 1)
Millionths(n, area) == LongDivision(n \div area, n % area, area, 6)
Ratio(it, n, area) ==
  /\ "v6" \in DOMAIN it
  /\ Abs(it.v6 - Millionths(n, area)) <= 1
  /\ area <= 2000000 => Abs(it.r3 - (area * 1000) \div n) <= 1
DensityOK(a, it, step) ==
  IF a.recs = << >> THEN TRUE
  ELSE CASE it.k = "extent_point_density" ->
              LET w == MaxCorner(a.recs)[1] - MinCorner(a.recs)[1]  d == MaxCorner(a.recs)[2] - MinCorner(a.recs)[2]
              IN IF w = 0 \/ d = 0 THEN "v6" \notin DOMAIN it ELSE Ratio(it, Len(a.recs), w * d)
         [] it.k = "grid_point_density" -> Ratio(it, Len(a.recs), Cardinality(Cells(a.recs, step, {1, 2})))
         [] it.k = "voxel_point_density" -> Ratio(it, Len(a.recs), Cardinality(Cells(a.recs, step, {1, 2, 3})))
Densities == <<"extent_point_density", "grid_point_density", "voxel_point_density">>

---------------------------------------------------------------------------
(* the report on some files: for every key the values in the order of the    *)
(* files, and the classes                                                    *)
Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, << >>, ss)
InfoOK(files, sw, step, items) ==
  LET N == Len(files)
      plain(a) == (IF sw.a THEN HeaderItems(a) ELSE << >>) \o (IF sw.s THEN SummaryItems(a, sw) ELSE << >>)
      want == Concat([n \in 1..N |-> plain(files[n])])
      dens == SelectSeq(items, LAMBDA it : it.k \in Range(Densities))
      cls == SelectSeq(items, LAMBDA it : it.k = "cls")
      rest == SelectSeq(items, LAMBDA it : it.k # "cls" /\ it.k \notin Range(Densities))
      count(S, it) == Cardinality({n \in 1..Len(S) : S[n] = it})
      wantcls == Concat([n \in 1..N |-> SetToSeq(ClassItems(files[n], sw))])
  IN /\ Len(rest) = Len(want)
     /\ \A key \in {want[n].k : n \in 1..Len(want)} \cup {rest[n].k : n \in 1..Len(rest)} :
          SelectSeq(rest, LAMBDA it : it.k = key) = SelectSeq(want, LAMBDA it : it.k = key)
     /\ IF ~ sw.l THEN cls = << >>
        ELSE Len(cls) = Len(wantcls) /\ \A n \in 1..Len(wantcls) : count(cls, wantcls[n]) = count(wantcls, wantcls[n])
     /\ IF ~ sw.m THEN dens = << >>
        ELSE /\ Len(dens) = 3 * N
             /\ \A j \in 1..3 : LET ds == SelectSeq(dens, LAMBDA it : it.k = Densities[j])
                                IN /\ Len(ds) = N
                                   /\ \A n \in 1..N : /\ step > 0 => DensityOK(files[n], ds[n], step)
                                                      /\ sw.j \/ ds[n].unit = <<"pts/unit^2", "pts/unit^2", "pts/unit^3">>[j]
=============================================================================
