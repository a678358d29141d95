------------------------------- MODULE SpocOps -------------------------------
(* What the SPOC commands compute, as pure functions and relations on       *)
(* clouds. Coordinates are lattice integers.                                *)
EXTENDS SpocData, TLC

Has(r, f) == f \in DOMAIN r

---------------------------------------------------------------------------
(* Transform: one operation on one record.                                  *)

(* rounding towards zero to a multiple of p; o is the sign of a far lattice *)
(* origin (a multiple of p itself), 0 if the origin is at zero              *)
TruncTo(k, p, o) ==
  IF o > 0 \/ (o = 0 /\ k >= 0) THEN (k \div p) * p ELSE -(((-k) \div p) * p)

Rot(a, b, q) == CASE q = 0 -> <<a, b>> [] q = 1 -> <<-b, a>>
                  [] q = 2 -> <<-a, -b>> [] OTHER -> <<b, -a>>

(* the plane turned by a rotation about an axis: x: (y,z), y: (x,z), z: (x,y) *)
Plane(ax) == CASE ax = 1 -> <<2, 3>> [] ax = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>

InList(v, vs) == \E n \in 1..Len(vs) : WEq(v, vs[n])

ApplyOp(rec, c) ==
  CASE c.n = "add"      -> [rec EXCEPT ![c.ax] = @ + c.v]
    [] c.n = "scale"    -> [rec EXCEPT ![c.ax] = (@ * c.num) \div c.den]
    [] c.n = "rot"      -> LET pl == Plane(c.ax)
                               r  == Rot(rec[pl[1]], rec[pl[2]], c.q % 4)
                           IN [rec EXCEPT ![pl[1]] = r[1], ![pl[2]] = r[2]]
    (* rotation by an angle with cosine c.cs/c.den and sine c.sn/c.den *)
    [] c.n = "rotp"     -> LET pl == Plane(c.ax)
                           IN [rec EXCEPT ![pl[1]] = (rec[pl[1]] * c.cs - rec[pl[2]] * c.sn) \div c.den,
                                          ![pl[2]] = (rec[pl[1]] * c.sn + rec[pl[2]] * c.cs) \div c.den]
    [] c.n = "quant"    -> [rec EXCEPT ![1] = TruncTo(@, c.p, c.o[1]),
                                       ![2] = TruncTo(@, c.p, c.o[2]),
                                       ![3] = TruncTo(@, c.p, c.o[3])]
    [] c.n = "set"      -> IF c.d.f \in CoordNames THEN Put(rec, c.d, c.v)
                           ELSE Put(rec, c.d, Resize(c.v, Width(c.d)))
    [] c.n = "replace"  -> IF WEq(Get(rec, c.d), c.old)
                           THEN Put(rec, c.d, Resize(c.new, Width(c.d))) ELSE rec
    [] c.n = "replnot"  -> IF InList(Get(rec, c.d), c.keep) THEN rec
                           ELSE Put(rec, c.d, Resize(c.new, Width(c.d)))
    [] c.n = "copy"     -> Put(rec, c.d, Resize(Get(rec, c.s), Width(c.d)))

RECURSIVE ApplyAll(_, _, _)
ApplyAll(rec, cmds, k) ==
  IF k > Len(cmds) THEN rec ELSE ApplyAll(ApplyOp(rec, cmds[k]), cmds, k + 1)

TransformRecs(recs, cmds) == [n \in 1..Len(recs) |-> ApplyAll(recs[n], cmds, 1)]

IntOnly == {"replace", "replnot", "copy"}
Designators(c) == (IF Has(c, "d") THEN {c.d} ELSE {}) \cup (IF Has(c, "s") THEN {c.s} ELSE {})

(* a command no input can make acceptable *)
BadCmd(c) ==
  \/ c.n = "bad"
  \/ \E d \in Designators(c) : ~ IsField(d)
  \/ c.n \in IntOnly /\ \E d \in Designators(c) : d.f \in CoordNames
  \/ c.n = "replnot" /\ Len(c.keep) = 0
(* a command this cloud's records do not support *)
LacksField(cl, c) == \E d \in Designators(c) : IsField(d) /\ ~ HasField(cl, d)

(* commands with parameters outside the lattice: only the frame is known,   *)
(* which is the header, the integer fields and the coordinates not named    *)
Integral(cmds) == SelectSeq(cmds, LAMBDA c : c.n # "opaque")
Touched(cmds) == UNION {Range(cmds[k].axes) : k \in {n \in 1..Len(cmds) : cmds[n].n = "opaque"}}
OpaqueOK(cl, cmds, D) ==
  LET e == TransformRecs(cl.recs, Integral(cmds))
  IN /\ D.k = "spoc" /\ D.w = cl.w /\ D.c = cl.c /\ D.E = cl.E
     /\ Len(D.recs) = Len(cl.recs)
     /\ \A n \in 1..Len(e), f \in (1..10) \ Touched(cmds) : D.recs[n][f] = e[n][f]

Tame(v) == v < 1999999999      \* an integer of the lattice, not a stand-in for something else

(* noise of many points: sample mean, variance and correlations within five *)
(* standard errors (sd, in lattice units, is c.stat)                        *)
NoiseStats(cl, c, D) ==
  LET n == Len(cl.recs)
      del(ax) == [k \in 1..n |-> D.recs[k][ax] - cl.recs[k][ax]]
      Sum(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)
      root == CHOOSE k \in 1..1000 : k * k = n        \* n is a square
      sd == c.stat
      axes == Range(c.axes)
      small(s) == Abs(Sum(s)) <= 5 * root * sd * sd    \* a sum of n products of independent draws
  IN /\ \A ax \in axes :
          LET v == del(ax)  m == Sum(v)  q == Sum([k \in 1..n |-> (v[k] * v[k]) \div 4])
          IN /\ Abs(m) <= 5 * root * sd
             /\ Abs(q - (n * sd * sd) \div 4) <= 2 * root * sd * sd
             /\ Cardinality(Range(v)) > sd
             /\ small([k \in 1..n |-> v[k] * v[(k % n) + 1]])
     /\ \A a, b \in axes : a < b => LET u == del(a)  v == del(b) IN small([k \in 1..n |-> u[k] * v[k]])

(* noise: which axes move and how far (lattice units) *)
NoiseOK(cl, c, D) ==
  /\ Len(D.recs) = Len(cl.recs)
  /\ \A n \in 1..Len(cl.recs) :
       /\ \A f \in 4..10 : D.recs[n][f] = cl.recs[n][f]
       /\ \A ax \in 1..3 :
            LET d == D.recs[n][ax] - cl.recs[n][ax]
            IN IF ~ Tame(D.recs[n][ax]) THEN FALSE
               ELSE IF ax \in Range(c.axes) THEN (c.kind = "u" => Abs(d) <= c.m + 1) ELSE d = 0
  /\ Has(c, "stat") => NoiseStats(cl, c, D)

---------------------------------------------------------------------------
(* Filters                                                                  *)
KeepRecs(recs, keep(_)) == SelectSeq(recs, keep)

(* first occurrence of each key, in order *)
FirstPerFold(recs, Key(_)) ==
  LET step(acc, q) == IF Key(q) \in acc[1] THEN acc
                      ELSE <<acc[1] \cup {Key(q)}, Append(acc[2], q)>>
  IN FoldLeft(step, << {}, << >> >>, recs)[2]
(* the same for keys of three integers, in time n log n: among the positions  *)
(* sorted by key, those that follow another key are the first with theirs     *)
FirstPerSort(recs, Key(_)) ==
  LET n == Len(recs)
      order == TLCEval(SetToSeq(TLCEval({Key(recs[k]) \o <<k>> : k \in 1..n})))
      less(p, q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF p[2] # q[2] THEN p[2] < q[2] ELSE IF p[3] # q[3] THEN p[3] < q[3] ELSE p[4] < q[4]
      new(j) == IF j = 1 THEN TRUE ELSE SubSeq(order[j], 1, 3) # SubSeq(order[j - 1], 1, 3)
      firsts == TLCEval({order[j][4] : j \in {i \in 1..n : new(i)}})
      at == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \in firsts)
  IN IF \A j \in 2..n : less(order[j - 1], order[j]) THEN [k \in 1..Len(at) |-> recs[at[k]]]
     ELSE FirstPerFold(recs, Key)     \* TLC does sort sets of such tuples
FirstPer(recs, Key(_)) == IF Len(recs) < 400 THEN FirstPerFold(recs, Key) ELSE FirstPerSort(recs, Key)

Vox(rec, mn, res) == << (rec[1] - mn[1]) \div res, (rec[2] - mn[2]) \div res, (rec[3] - mn[3]) \div res >>

(* doubles as 4-limb bit patterns: what is not a number is neither less nor  *)
(* greater than anything, and the two zeros are equal                        *)
NotANumber(w) == (w[1] \div 16) % 2048 = 2047 /\ (w[1] % 16 # 0 \/ w[2] # 0 \/ w[3] # 0 \/ w[4] # 0)
Negative(w) == w[1] >= 32768
Magnitude(w) == <<w[1] % 32768, w[2], w[3], w[4]>>
DLess(a, b) ==
  IF NotANumber(a) \/ NotANumber(b) THEN FALSE
  ELSE LET ma == Magnitude(a)  mb == Magnitude(b)
       IN IF ma = Zero(4) /\ mb = Zero(4) THEN FALSE
          ELSE IF Negative(a) THEN (~ Negative(b) \/ WLess(mb, ma))
          ELSE ~ Negative(b) /\ WLess(ma, mb)

CmpHolds(rec, t) ==
  IF "bits" \in DOMAIN t THEN (IF t.gt THEN DLess(t.bits, rec[t.ax]) ELSE DLess(rec[t.ax], t.bits))
  ELSE IF t.gt THEN rec[t.ax] > t.v ELSE rec[t.ax] < t.v

(* op.keep, op.remove: sequences of class words; op.uniq; op.res (0: none); op.coord: [ax,gt,v] or [ax|->0] *)
Classed(recs, op) ==
  LET a == IF op.keep = << >> THEN recs
           ELSE SelectSeq(recs, LAMBDA q : InList(q[C], op.keep))
  IN IF op.remove = << >> THEN a ELSE SelectSeq(a, LAMBDA q : ~ InList(q[C], op.remove))

Coorded(recs, op) ==
  IF op.coord.ax = 0 THEN recs ELSE SelectSeq(recs, LAMBDA q : ~ CmpHolds(q, op.coord))

Uniqued(recs, op) == IF op.uniq THEN FirstPer(recs, XYZ) ELSE recs
Subsampled(recs, op) ==
  IF op.res = 0 \/ recs = << >> THEN recs
  ELSE LET mn == MinCorner(recs) IN FirstPer(recs, LAMBDA q : Vox(q, mn, op.res))

FilterRecs(recs, op) == Coorded(Subsampled(Uniqued(Classed(recs, op), op), op), op)

(* one member of recs per key is chosen; those the coordinate comparison     *)
(* holds for are removed afterwards                                          *)
OneOfEach(recs, out, op, Key(_)) ==
  LET keys == {Key(out[n]) : n \in 1..Len(out)}
  IN /\ Range(out) \subseteq Range(Coorded(recs, op))
     /\ Cardinality(keys) = Len(out)
     /\ \A n \in 1..Len(recs) : \/ Key(recs[n]) \in keys
                                \/ op.coord.ax # 0 /\ \E m \in 1..Len(recs) : Key(recs[m]) = Key(recs[n]) /\ CmpHolds(recs[m], op.coord)

FilterOK(recs, op, out) ==
  IF ~ op.rand \/ (~ op.uniq /\ op.res = 0) THEN out = FilterRecs(recs, op)
  ELSE LET a == Classed(recs, op)
       IN IF a = << >> THEN out = << >>
          ELSE IF op.res = 0 THEN OneOfEach(a, out, op, XYZ)
          ELSE LET mn == MinCorner(a) IN OneOfEach(a, out, op, LAMBDA q : Vox(q, mn, op.res))

---------------------------------------------------------------------------
(* Merge                                                                    *)
WithId(recs, id) == [n \in 1..Len(recs) |-> [recs[n] EXCEPT ![P] = id]]
RECURSIVE MergeFrom(_, _, _)
MergeFrom(clouds, op, k) ==
  IF k > Len(clouds) THEN << >>
  ELSE WithId(clouds[k].recs, IF op.id = << >> THEN WOf(k - 1, 2) ELSE op.id)
       \o MergeFrom(clouds, op, k + 1)
MergeConflict(clouds) ==
  \E a, b \in 1..Len(clouds) : clouds[a].recs # << >> /\ clouds[b].recs # << >> /\ clouds[a].E # clouds[b].E
Merged(clouds, op) ==
  Cloud(clouds[1].w, \A k \in 1..Len(clouds) : clouds[k].c, MergeFrom(clouds, op, 1))

(* What merging warns of: <<an input with another SRS than the first,        *)
(* a merged rectangle of more than a hundred times theirs together>>        *)
Narrow(recs) == \A n \in 1..Len(recs) : \A k \in 1..2 : -20000 < recs[n][k] /\ recs[n][k] < 20000
Rectangle(recs) == LET a == MinCorner(recs)  b == MaxCorner(recs) IN (b[1] - a[1]) * (b[2] - a[2])
SrsDiffer(clouds) == \E k \in 1..Len(clouds) : clouds[k].w # clouds[1].w
MostlyEmpty(clouds) ==
  LET all == MergeFrom(clouds, [id |-> << >>], 1)
      sum == FoldLeft(LAMBDA x, y : x + y, 0, [k \in 1..Len(clouds) |-> Rectangle(clouds[k].recs)])
  IN (Rectangle(all) - 1) \div 100 >= sum /\ Rectangle(all) > 0
WarningsOK(clouds, op) ==
  IF op.quiet THEN op.warn = <<FALSE, FALSE>>
  ELSE /\ op.warn[1] = SrsDiffer(clouds)
       /\ (\A k \in 1..Len(clouds) : clouds[k].recs # << >> /\ Narrow(clouds[k].recs)) => op.warn[2] = MostlyEmpty(clouds)

---------------------------------------------------------------------------
(* Tiling                                                                   *)
(* op.mode: "n" (op.n tiles along the longest side), "s" (op.sx, op.sy cell *)
(* sizes, 0 meaning undivided)                                              *)
(* The size of n cells along the longest side is D/n, which need not be      *)
(* representable: a point exactly on an inner boundary may be assigned to    *)
(* either neighbour, but to the same one throughout (down).                  *)
CellN(a, n, D, down) ==
  IF D = 0 \/ a = 0 THEN 0 ELSE IF a = D THEN n - 1
  ELSE IF down THEN (a * n - 1) \div D ELSE (a * n) \div D
CellS(a, s) == IF s = 0 THEN 0 ELSE a \div s
TileOf(rec, op, mn, ext, down) ==
  IF op.mode = "n"
  THEN LET D == IF ext[1] > ext[2] THEN ext[1] ELSE ext[2]
       IN <<CellN(rec[2] - mn[2], op.n, D, down), CellN(ext[1], op.n, D, down) + 1, CellN(rec[1] - mn[1], op.n, D, down)>>
  ELSE <<CellS(rec[2] - mn[2], op.sy), CellS(ext[1], op.sx) + 1, CellS(rec[1] - mn[1], op.sx)>>

TileNumbersBy(recs, op, down) ==
  IF recs = << >> THEN << >>
  ELSE LET mn == MinCorner(recs)  mx == MaxCorner(recs)
           ext == <<mx[1] - mn[1], mx[2] - mn[2]>>
       IN [n \in 1..Len(recs) |-> TileOf(recs[n], op, mn, ext, down)]
TileNumbers(recs, op) == TileNumbersBy(recs, op, FALSE)

RECURSIVE Pad(_, _)
Pad(s, d) == IF Len(s) >= d THEN s ELSE Pad("0" \o s, d)
(* row * width + column in decimal: it needs more than 32 bits *)
Myriads(n) == <<n % 10000, (n \div 10000) % 10000, n \div 100000000>>
RECURSIVE Carried(_, _)
Carried(s, c) ==     \* sums of products, the lowest first, as digits
  IF s = << >> THEN (IF c = 0 THEN << >> ELSE <<c % 10000>> \o Carried(<< >>, c \div 10000))
  ELSE <<(s[1] + c) % 10000>> \o Carried(Tail(s), (s[1] + c) \div 10000)
Decimal(s) ==
  LET top == CHOOSE k \in 1..Len(s) : (s[k] # 0 \/ k = 1) /\ \A j \in (k + 1)..Len(s) : s[j] = 0
  IN FoldLeft(LAMBDA str, k : str \o Pad(ToString(s[top - k]), 4), ToString(s[top]), [k \in 1..(top - 1) |-> k])
TileNumber(t) ==
  IF t[1] < 32768 /\ t[2] < 32768 THEN ToString(t[1] * t[2] + t[3])
  ELSE LET a == Myriads(t[1])  b == Myriads(t[2])  c == Myriads(t[3])
           at(k) == IF k \in 1..3 THEN c[k] ELSE 0
       IN Decimal(Carried(<<a[1] * b[1] + at(1), a[1] * b[2] + a[2] * b[1] + at(2), a[1] * b[3] + a[2] * b[2] + a[3] * b[1] + at(3),
                            a[2] * b[3] + a[3] * b[2], a[3] * b[3]>>, 0))
TileName(op, t) == op.prefix \o Pad(TileNumber(t), op.digits) \o op.ext
(* the records of tile t, in input order *)
TileRecs(recs, nums, t) ==
  LET ix == SelectSeq([n \in 1..Len(recs) |-> n], LAMBDA n : nums[n] = t)
  IN [k \in 1..Len(ix) |-> recs[ix[k]]]

---------------------------------------------------------------------------
(* Tool                                                                     *)
SumAx(recs, ax) == FoldLeft(LAMBDA s, q : s + q[ax], 0, recs)

(* every point moves by the same offset, and the mean of the axes becomes 0 *)
RecenterOK(recs, axes, out) ==
  /\ Len(out) = Len(recs)
  /\ \A n \in 1..Len(recs) : \A f \in 1..10 :
       IF f \in axes THEN TRUE ELSE out[n][f] = recs[n][f]
  /\ recs # << >> =>
       \A ax \in axes :
         LET sum == SumAx(recs, ax)  cnt == Len(recs)
         IN \A n \in 1..Len(recs) :
              Tame(out[n][ax]) /\
              IF sum % cnt = 0 THEN out[n][ax] = recs[n][ax] - sum \div cnt
              ELSE Abs((recs[n][ax] - out[n][ax]) * cnt - sum) < cnt

SubMin(recs, axes) ==
  IF recs = << >> THEN recs
  ELSE LET mn == MinCorner(recs)
       IN [n \in 1..Len(recs) |->
            [recs[n] EXCEPT ![1] = IF 1 \in axes THEN @ - mn[1] ELSE @,
                            ![2] = IF 2 \in axes THEN @ - mn[2] ELSE @,
                            ![3] = IF 3 \in axes THEN @ - mn[3] ELSE @]]

ResizeExtra(recs, m) ==
  [n \in 1..Len(recs) |->
     [recs[n] EXCEPT ![EX] = IF Len(@) >= m THEN SubSeq(@, 1, m)
                             ELSE @ \o [j \in 1..(m - Len(@)) |-> Zero(4)]]]

SetField(recs, d, vals) ==
  LET wide == IF d.f = "e" /\ recs # << >> /\ d.j >= Len(recs[1][EX])
              THEN ResizeExtra(recs, d.j + 1) ELSE recs
  IN [n \in 1..Len(recs) |->
        Put(wide[n], d, IF d.f \in CoordNames THEN vals[n] ELSE Resize(vals[n], Width(d)))]

(* exported values as 64-bit words (coordinates: lattice integers) *)
FieldText(recs, d) ==
  [n \in 1..Len(recs) |-> IF d.f \in CoordNames THEN Get(recs[n], d) ELSE Resize(Get(recs[n], d), 4)]

(* classes of low copied into the matching voxels of high *)
Upsample(low, high, res) ==
  IF high = << >> THEN high
  ELSE LET mn == MinCorner(high)
           (* last low record of each voxel *)
           lv == [n \in 1..Len(low) |-> Vox(low[n], mn, res)]
           cls == FoldLeft(LAMBDA f, n : (lv[n] :> low[n][C]) @@ f, << >>, [n \in 1..Len(low) |-> n])
       IN [n \in 1..Len(high) |->
             LET v == Vox(high[n], mn, res)
             IN IF v \in DOMAIN cls THEN [high[n] EXCEPT ![C] = cls[v]] ELSE high[n]]

---------------------------------------------------------------------------
(* Diff                                                                     *)
SameHeader(a, b) == a.w = b.w /\ a.c = b.c /\ a.E = b.E /\ Len(a.recs) = Len(b.recs)
SameData(a, b) == a.recs = b.recs /\ (a.recs = << >> \/ a.E = b.E)
SameField(a, b, d) ==
  IF d.f # "e" THEN Column(a.recs, d) = Column(b.recs, d)
  ELSE /\ HasField(a, d) <=> HasField(b, d)
       /\ HasField(a, d) => Column(a.recs, d) = Column(b.recs, d)
DiffEqual(a, b, op) ==
  CASE op.mode = "all"    -> SameHeader(a, b) /\ SameData(a, b)
    [] op.mode = "header" -> SameHeader(a, b)
    [] op.mode = "data"   -> SameData(a, b)
    [] OTHER              -> \A k \in 1..Len(op.fields) : SameField(a, b, op.fields[k])
=============================================================================
