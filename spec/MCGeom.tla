------------------------------- MODULE MCGeom -------------------------------
(* The laws that equality, order, extents and voxels have to obey, on small  *)
(* sets of doubles and on small lattices.                                    *)
EXTENDS SpocGeom, TLC

CONSTANTS Mode, N, W, MaxRes

(* doubles: both zeros, neighbours, both signs, infinities *)
D == {<<0, 0, 0, 0>>, <<Half, 0, 0, 0>>, <<0, 0, 0, 1>>, <<Half, 0, 0, 1>>, <<16368, 0, 0, 0>>, <<16368, 0, 0, 1>>, <<16367, 65535, 65535, 65535>>,
      <<49136, 0, 0, 0>>, <<49136, 0, 0, 1>>, Highest, Lowest, <<32752, 0, 0, 0>>, <<65520, 0, 0, 0>>}
E == {<<0, 0, 0, 0>>, <<Half, 0, 0, 0>>, <<49136, 0, 0, 1>>}
Pts == IF Mode = "order" THEN (D \X {<<0, 0, 0, 0>>} \X {<<0, 0, 0, 0>>}) \cup (E \X E \X {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>}) ELSE {}
Lattice == (0..W) \X (0..W) \X {0}

VARIABLES ps, a, res
vars == <<ps, a, res>>

Init ==
  \/ Mode = "order" /\ ps \in {<<x>> : x \in Pts} /\ a = 0 /\ res = 0
  \/ Mode = "voxel" /\ ps = << >> /\ a \in {<<x, y, 0>> : x \in -1..1, y \in 0..W} /\ res \in 1..MaxRes
Add == Len(ps) < N /\ \E x \in (IF Mode = "order" THEN Pts ELSE Lattice) : ps' = Append(ps, x) /\ UNCHANGED <<a, res>>
Next == Add
Spec == Init /\ [][Next]_vars

Pairs == Len(ps) = 2 => \A j, k \in 1..Len(ps) :
  /\ PEq(ps[j], ps[k]) = PEq(ps[k], ps[j]) /\ PEq(ps[j], ps[j])
  /\ ~ (PLess(ps[j], ps[k]) /\ PLess(ps[k], ps[j]))
  /\ PLess(ps[j], ps[k]) \/ PLess(ps[k], ps[j]) <=> ~ PEq(ps[j], ps[k])
Triples == Len(ps) = 3 => LET j == 1 k == 2 m == 3 IN
  /\ PLess(ps[j], ps[k]) /\ PLess(ps[k], ps[m]) => PLess(ps[j], ps[m])
  /\ PEq(ps[j], ps[k]) /\ PEq(ps[k], ps[m]) => PEq(ps[j], ps[m])
  /\ PEq(ps[j], ps[k]) /\ PLess(ps[k], ps[m]) => PLess(ps[j], ps[m])

(* boxes: points 1 and 2 are the corners of a box *)
Box == <<ps[1][1], ps[1][2], ps[1][3], ps[2][1], ps[2][2], ps[2][3]>>
Crops == Mode = "order" /\ Len(ps) >= 2 =>
  LET q == Cropped(ps, Box)
  IN /\ Cropped(q, Box) = q
     /\ \A n \in 1..Len(ps) : Inside(ps[n], Box) <=> \E k \in 1..Len(q) : q[k] = ps[n]
     /\ IsExtent(Box, ps) => q = ps
     /\ (\E k \in 1..3 : DLess(ps[2][k], ps[1][k])) => q = << >>

VS == VoxelsOf(ps, a, res)
(* every point lies in the half-open box of exactly one voxel *)
Partition == Mode = "voxel" =>
  \A n \in 1..Len(ps) : \A v \in {VS[k] : k \in 1..Len(ps)} :
    (\A k \in 1..3 : a[k] + v[k] * res <= ps[n][k] /\ ps[n][k] < a[k] + (v[k] + 1) * res) <=> v = VS[n]
(* voxels far apart are the same ones *)
FarAgree == Mode = "voxel" => \A r \in {1, 2, 4} : \A n \in 1..Len(ps) : \A h \in {-2, 0, 3} :
  LET big(q) == [k \in 1..3 |-> <<(q[k] + h) \div Far, (q[k] + h) % Far>>]
      v == FarVoxelOf(big(ps[n]), big(a), r)
      w == VoxelOf(ps[n], a, r)
  IN \A k \in 1..3 : v[k] = <<w[k] \div (Far \div r), w[k] % (Far \div r)>>
Groups == Mode = "voxel" =>
  LET G == [v \in {VS[k] : k \in 1..Len(ps)} |-> GroupOf(VS, v)]
  IN /\ \A n \in 1..Len(ps) : Cardinality({v \in DOMAIN G : (n - 1) \in ToSet(G[v])}) = 1
     /\ \A v \in DOMAIN G : \A k \in 1..(Len(G[v]) - 1) : G[v][k] < G[v][k + 1]
     /\ FoldFunctionOnSet(LAMBDA g, x : x + Len(g), 0, G, DOMAIN G) = Len(ps)
=============================================================================
