----------------------------- MODULE MCParallel -----------------------------
(* All schedules of a region on a number of workers. Mode: "free" any       *)
(* independent region of two tasks, "three" of three tasks with one write   *)
(* location each, "spoc" the regions of SPOC, "clash" regions that are not  *)
(* independent (which must be able to go wrong).                            *)
EXTENDS SpocParallel
CONSTANTS Locs, Workers, Mode

Tasks == [r : SUBSET Locs, w : SUBSET Locs]
Small == [r : {S \in SUBSET Locs : Cardinality(S) <= 2}, w : {{x} : x \in Locs} \cup {{}}]

(* the footprints of the parallel regions, for three records (or columns).  *)
(* p: the records, v: the values derived from them, k: shared arguments     *)
Own(a) == <<a, 1>>
P(n) == <<"p", n>>   V(n) == <<"v", n>>   K == <<"k", 0>>
N == 1..3
ForEach(F(_)) == [n \in N |-> F(n)]
Affine   == ForEach(LAMBDA n : [r |-> {P(n), K}, w |-> {P(n)}])          \* add, scale, rotate, quantize: in place
Voxels   == ForEach(LAMBDA n : [r |-> {P(n), K}, w |-> {V(n)}])          \* voxel indexes of the points
Indexed  == ForEach(LAMBDA n : [r |-> {P((n % 2) + 1), K}, w |-> {V(n)}]) \* the same through a list of indexes, with repeats
Sections == ForEach(LAMBDA n : [r |-> {P(n)}, w |-> {V(n)}])             \* compressing the columns
Radius   == ForEach(LAMBDA n : [r |-> {P(1), P(2), P(3), K}, w |-> {V(n)}]) \* every search looks at all the points
SpocRegions == {Affine, Voxels, Indexed, Sections, Radius}
(* what must not be done: a shared scratch buffer, a shared counter, reading a neighbour that is changed in place *)
Scratch  == ForEach(LAMBDA n : [r |-> {P(n), K}, w |-> {K, V(n)}])
Neighbor == ForEach(LAMBDA n : [r |-> {P(n), P((n % 3) + 1)}, w |-> {P(n)}])

Regions ==
  CASE Mode = "free"  -> {g \in [1..2 -> Tasks] : Independent(g)}
    [] Mode = "three" -> {g \in [1..3 -> Small] : Independent(g)}
    [] Mode = "spoc"  -> SpocRegions
    [] Mode = "clash" -> {Scratch, Neighbor}
All(g) == UNION {g[t].r \cup g[t].w : t \in 1..Len(g)}
Init0(g) == [x \in All(g) |-> <<"init", x>>]

VARIABLES reg, mem, todo, run
vars == <<reg, mem, todo, run>>
Idle == [t |-> 0, r |-> {}, w |-> {}, got |-> << >>]

Init ==
  /\ reg \in Regions
  /\ mem = Init0(reg)
  /\ todo = 1..Len(reg)
  /\ run = [k \in 1..Workers |-> Idle]

Take(k) == \E t \in todo :
  /\ run[k].t = 0
  /\ todo' = todo \ {t}
  /\ run' = [run EXCEPT ![k] = [t |-> t, r |-> reg[t].r, w |-> reg[t].w, got |-> << >>]]
  /\ UNCHANGED <<reg, mem>>
Read(k) == \E x \in run[k].r :
  /\ run' = [run EXCEPT ![k].r = @ \ {x}, ![k].got = @ @@ (x :> mem[x])]
  /\ UNCHANGED <<reg, mem, todo>>
Write(k) == \E x \in run[k].w :
  /\ run[k].t # 0 /\ run[k].r = {}
  /\ mem' = [mem EXCEPT ![x] = Value(run[k].t, x, [y \in reg[run[k].t].r |-> run[k].got[y]])]
  /\ run' = [run EXCEPT ![k].w = @ \ {x}]
  /\ UNCHANGED <<reg, todo>>
Finish(k) ==
  /\ run[k].t # 0 /\ run[k].r = {} /\ run[k].w = {}
  /\ run' = [run EXCEPT ![k] = Idle]
  /\ UNCHANGED <<reg, mem, todo>>
Next == \E k \in 1..Workers : Take(k) \/ Read(k) \/ Write(k) \/ Finish(k)
Spec == Init /\ [][Next]_vars

Done == todo = {} /\ \A k \in 1..Workers : run[k].t = 0
Deterministic == Done => mem = Sequential(reg, Init0(reg), 1)
AllIndependent == \A g \in SpocRegions : Independent(g)
Settles == [](Done => []Done)
=============================================================================
