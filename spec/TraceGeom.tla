------------------------------ MODULE TraceGeom ------------------------------
(* Validation of recorded answers about extents, voxels, encodings,          *)
(* equality, hashes and order.                                               *)
EXTENDS SpocGeom, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l
vars == <<h, l>>

Bool(n) == n = 1
Unknown == 2

OK(e) ==
  IF "crash" \in DOMAIN e THEN FALSE
  ELSE CASE e.op = "extent" -> IsExtent(e.r, e.pts)
         [] e.op = "total" -> IsUnion(e.r, e.a, e.b)
         [] e.op = "crop" -> e.r.idx = [n \in 1..Len(Kept(e.pts, e.e)) |-> Kept(e.pts, e.e)[n] - 1] /\ e.r.same
         [] e.op = "box" -> e.r.area = Area(e.e) /\ e.r.volume = Volume(e.e)
         [] e.op = "center" -> \A k \in 1..3 : e.r[k] = 16 * Sum(e.pts, k)
         [] e.op = "distance" -> IsSqrt(e.r, 1024 * Distance2(e.a, e.b))
         [] e.op = "far" -> Square(e.h) = Distance2(e.a, e.b) => e.r = 32 * e.h * e.k     \* k times a and b, whose distance is whole
         [] e.op = "arith" -> e.r.plus = Plus(e.a, e.b) /\ e.r.minus = Minus(e.a, e.b) /\ e.r.pluseq = Plus(e.a, e.b) /\ e.r.minuseq = Minus(e.a, e.b)
         [] e.op = "about" ->
              e.r = (IF \A n \in 1..Len(e.p) : AboutEqual(e.p[n], e.q[n], e.m, e.digits) THEN 1 ELSE 0)
         [] e.op = "relative" ->     \* lattice
              \A n \in 1..Len(e.pts) : \A k \in 1..3 :
                /\ e.hi[k] > e.lo[k] => IsRelative(e.r.w[n][k], e.pts[n][k], e.lo[k], e.hi[k] - e.lo[k])
                /\ e.r.err[n][k] <= 4
         [] e.op = "absolute" ->
              \A n \in 1..Len(e.w) : \A k \in 1..3 : e.r[n][k] = e.w[n][k] * (e.hi[k] - e.lo[k])
         [] e.op = "relation" ->     \* any numbers: ends, order, inverse
              \A n \in 1..Len(e.pts) : \A k \in 1..3 :
                /\ e.r.err[n][k] <= 8
                /\ DLess(e.e[k], e.e[k + 3]) =>
                    /\ WLeq(e.r.w[n][k], One62)
                    /\ DEq(e.pts[n][k], e.e[k]) => e.r.w[n][k] = Zero(4)
                    /\ DEq(e.pts[n][k], e.e[k + 3]) => e.r.w[n][k] = One62
                    /\ \A j \in 1..Len(e.pts) : DLeq(e.pts[n][k], e.pts[j][k]) => WLeq(e.r.w[n][k], e.r.w[j][k])
         [] e.op = "codec" -> e.r = e.v
         [] e.op = "voxel" ->
              LET ps == IF e.mode = "index" THEN [n \in 1..Len(e.idx) |-> e.pts[e.idx[n] + 1]] ELSE e.pts
                  vs == IF ps = << >> THEN << >>
                        ELSE IF e.mode = "far" THEN [n \in 1..Len(ps) |-> FarVoxelOf(ps[n], e.a, e.res)]
                        ELSE VoxelsOf(ps, IF e.mode \in {"index", "plain"} THEN Corner(e.pts) ELSE e.a, e.res)
              IN e.r.v = vs /\ IsSet(e.r.set, vs) /\ IsMap(e.r.map, vs)
         [] e.op = "eq" ->
              LET eq == Equal(e.a, e.b)
              IN /\ e.r.eq = eq /\ e.r.ne = (IF eq THEN 0 ELSE 1)
                 /\ eq => e.r.hash \in {1, Unknown}
                 /\ e.r.set # 0 /\ Equal(e.a, e.a) /\ Equal(e.b, e.b) => e.r.set = IF eq THEN 1 ELSE 2
         [] e.op = "order" ->
              /\ \A j, k \in 1..Len(e.pts) : Bool(e.r.lt[j][k]) = PLess(e.pts[j], e.pts[k])
              /\ e.r.set = Classes(e.pts) /\ e.r.hashed = Classes(e.pts)
              /\ Len(e.r.sorted) = Len(e.pts)
              /\ \A k \in 1..(Len(e.pts) - 1) : ~ PLess(e.r.sorted[k + 1], e.r.sorted[k])
              /\ \A k \in 1..Len(e.pts) : Cardinality({j \in 1..Len(e.pts) : e.pts[j] = e.pts[k]}) = Cardinality({j \in 1..Len(e.pts) : e.r.sorted[j] = e.pts[k]})

TraceInit == h \in 1..Len(Hist) /\ l = 1
TraceNext ==
  /\ l <= Len(Hist[h].ev)
  /\ LET ok == OK(Hist[h].ev[l])
     IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", h, l>>)
        /\ l' = IF ok THEN l + 1 ELSE Len(Hist[h].ev) + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
