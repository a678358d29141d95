------------------------------- MODULE MCShell -------------------------------
(* The shell as a closed system over small clouds: any command of a family  *)
(* in any state, succeeding, refusing or hit by an output fault. Used       *)
(*  - to check the laws of each command family on all small clouds,         *)
(*  - to check that the acceptor Permits (used on recorded executions)      *)
(*    accepts exactly what the commands deliver: every generated outcome is *)
(*    accepted, every corrupted one is rejected,                            *)
(*  - to generate behaviours that are replayed on the real applications.    *)
EXTENDS SpocShell, Json

CONSTANTS Fam, MaxRecs, Depth, XS, YS, CS, ES

VARIABLES fs, last, hist, d
vars == <<fs, last, hist, d>>

W2(n) == WOf(n, 2)
W4(n) == WOf(n, 4)
MkRec(x, y, c, ex) == <<x, y, 0, W2(c), W2(7), <<c>>, <<3>>, <<4>>, <<5>>, ex>>
Extras == IF ES = 0 THEN { << >> } ELSE { <<W4(n)>> : n \in 0..ES }
RecSet == {MkRec(x, y, c, ex) : x \in XS, y \in YS, c \in CS, ex \in Extras}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
CloudsOf(n) == {Cloud(w, c, s) : w \in {"h"}, c \in BOOLEAN, s \in SeqsUpTo(RecSet, n)}

---------------------------------------------------------------------------
NoCoord == [ax |-> 0]
FilterOp(src, keep, rem, u, res, co, rnd) ==
  [app |-> "filter", src |-> src, dst |-> "o", keep |-> keep, remove |-> rem, uniq |-> u, res |-> res,
   coord |-> co, rand |-> rnd]
Classes1 == {<<W2(c)>> : c \in CS}
FilterOps(src) ==
  {FilterOp(src, k, r, u, 0, NoCoord, rnd) : k \in {<< >>} \cup Classes1, r \in {<< >>} \cup Classes1, u \in BOOLEAN, rnd \in BOOLEAN}
  \cup {FilterOp(src, << >>, << >>, u, res, NoCoord, rnd) : u \in BOOLEAN, res \in {1, 2}, rnd \in BOOLEAN}
  \cup {FilterOp(src, << >>, << >>, FALSE, 0, [ax |-> ax, gt |-> g, v |-> v], FALSE) : ax \in 1..2, g \in BOOLEAN, v \in XS}

FD(f) == [f |-> f]
FE(j) == [f |-> "e", j |-> j]
Cmd1 ==
  {[n |-> "add", ax |-> ax, v |-> v] : ax \in 1..3, v \in {-1, 2}}
  \cup {[n |-> "scale", ax |-> ax, num |-> m, den |-> 1] : ax \in 1..2, m \in {-1, 2}}
  \cup {[n |-> "rot", ax |-> ax, q |-> q] : ax \in 1..3, q \in {1, 2, 3}}
  \cup {[n |-> "quant", p |-> p, o |-> <<0, 0, 0>>] : p \in {2, 3}}
  \cup {[n |-> "set", d |-> FD(f), v |-> W4(9)] : f \in {"c", "i", "b"}}
  \cup {[n |-> "set", d |-> FE(0), v |-> W4(9)], [n |-> "set", d |-> FD("z"), v |-> 3], [n |-> "set", d |-> FD("?"), v |-> W4(1)]}
  \cup {[n |-> "replace", d |-> f, old |-> W4(1), new |-> W4(65537)] : f \in {FD("c"), FD("i"), FD("x"), FE(0)}}
  \cup {[n |-> "replnot", d |-> f, keep |-> <<W4(1)>>, new |-> W4(3)] : f \in {FD("c"), FD("p"), FE(0)}}
  \cup {[n |-> "copy", s |-> s, d |-> t] : s \in {FD("c"), FD("p"), FE(0)}, t \in {FD("i"), FD("p"), FE(0)}}
TransformOp(src, cmds) == [app |-> "transform", src |-> src, dst |-> "o", cmds |-> cmds]
TransformOps(src) == {TransformOp(src, <<c>>) : c \in Cmd1}
  \cup {TransformOp(src, <<[n |-> "noise", kind |-> "u", axes |-> <<1>>, m |-> 1]>>)}
  \cup {TransformOp(src, <<[n |-> "add", ax |-> 1, v |-> 1], c>>) : c \in {x \in Cmd1 : x.n \in {"rot", "scale", "quant"}}}

ToolOps(src) ==
  {[app |-> "tool", cmd |-> c, src |-> src, dst |-> "o"] : c \in {"recenter-xy", "recenter-xyz", "subtract-min-xy", "subtract-min-xyz"}}
  \cup {[app |-> "tool", cmd |-> "resize-extra", src |-> src, dst |-> "o", m |-> m] : m \in {-1, 0, 1, 2, 256}}
  \cup {[app |-> "tool", cmd |-> "get-field", src |-> src, dst |-> "", d |-> x] : x \in {FD("x"), FD("c"), FE(0), FD("?")}}
  \cup {[app |-> "tool", cmd |-> "upsample", srcs |-> <<"a", src>>, src |-> "a", dst |-> "o", res |-> r] : r \in {0, 1, 2}}
  \cup {[app |-> "tool", cmd |-> "set-field", srcs |-> <<src, "t">>, src |-> src, dst |-> "o", d |-> x] : x \in {FD("c"), FD("r"), FE(0), FE(1)}}

MergeOps == {[app |-> "merge", srcs |-> s, dst |-> "", id |-> i] :
               s \in {<<"a">>, <<"a", "b">>, <<"b", "a", "a">>, <<"a", "zz">>}, i \in {<< >>, W2(65537)}}
TileOps(src) ==
  {[app |-> "tile", src |-> src, mode |-> "n", n |-> n, sx |-> 0, sy |-> 0, digits |-> 1, prefix |-> "t_", ext |-> ".s", force |-> f] :
     n \in 1..3, f \in BOOLEAN}
  \cup {[app |-> "tile", src |-> src, mode |-> "s", n |-> 0, sx |-> sx, sy |-> sy, digits |-> 2, prefix |-> "t_", ext |-> ".s", force |-> f] :
     sx \in {1, 2}, sy \in {0, 1, 2}, f \in BOOLEAN}
  \cup {[app |-> "tile", src |-> src, mode |-> "s", n |-> 0, sx |-> 0, sy |-> sy, digits |-> 2, prefix |-> "t_", ext |-> ".s", force |-> f] :
     sy \in {1, 2}, f \in BOOLEAN}
DiffOps == {[app |-> "diff", srcs |-> <<a, b>>, mode |-> m, rev |-> r, fields |-> f] :
              a \in {"a", "b"}, b \in {"a", "b", "zz"}, m \in {"all", "header", "data", "fields", "bad"}, r \in BOOLEAN,
              f \in {<<FD("x")>>, <<FD("c"), FE(0)>>}}
CodecOps(src) == {[app |-> a, src |-> src, dst |-> "o"] : a \in {"compress", "decompress"}}
  \cup {[app |-> "srs", cmd |-> "set", src |-> src, dst |-> "o", w |-> w] : w \in {"h", "h41"}}
  \cup {[app |-> "srs", cmd |-> "get", srcs |-> <<src, "a">>, dst |-> ""]}

Ops ==
  LET srcs == {"a", "o", "zz"}
  IN CASE Fam = "filter"    -> UNION {FilterOps(s) : s \in srcs}
       [] Fam = "transform" -> UNION {TransformOps(s) : s \in srcs}
       [] Fam = "tool"      -> UNION {ToolOps(s) : s \in srcs}
       [] Fam = "merge"     -> MergeOps \cup {[app |-> "diff", srcs |-> <<"a", "b">>, mode |-> "all", rev |-> FALSE, fields |-> << >>]}
       [] Fam = "tile"      -> TileOps("a")
       [] Fam = "diff"      -> DiffOps
       [] Fam = "codec"     -> UNION {CodecOps(s) : s \in srcs}
       [] OTHER -> UNION {FilterOps(s) \cup TransformOps(s) \cup ToolOps(s) \cup CodecOps(s) : s \in {"a", "o"}} \cup MergeOps \cup DiffOps

---------------------------------------------------------------------------
(* results a successful command may deliver *)
PickOne(recs, Key(_)) ==
  LET keys == {Key(recs[n]) : n \in 1..Len(recs)}
  IN {SetToSeq({f[k] : k \in keys}) : f \in {g \in [keys -> Range(recs)] : \A k \in keys : Key(g[k]) = k}}
FilterOuts(recs, op) ==
  IF ~ op.rand \/ (~ op.uniq /\ op.res = 0) THEN {FilterRecs(recs, op)}
  ELSE LET a == Classed(recs, op)
       IN IF a = << >> THEN { << >> }
          ELSE IF op.res = 0 THEN PickOne(a, XYZ)
          ELSE LET mn == MinCorner(a) IN PickOne(a, LAMBDA q : Vox(q, mn, op.res))
NoiseOuts(recs) == {[n \in 1..Len(recs) |-> [recs[n] EXCEPT ![1] = recs[n][1] + dx[n]]] : dx \in [1..Len(recs) -> {-1, 1}]}

Results(op) ==
  LET a == In(fs, op, 1)
  IN CASE op.app = "compress"   -> {[a EXCEPT !.c = TRUE]}
       [] op.app = "decompress" -> {[a EXCEPT !.c = FALSE]}
       [] op.app = "transform"  -> IF op.cmds[1].n = "noise" THEN {[a EXCEPT !.recs = r] : r \in NoiseOuts(a.recs)}
                                   ELSE {[a EXCEPT !.recs = TransformRecs(@, op.cmds)]}
       [] op.app = "filter"     -> {WithRecs(a, r) : r \in FilterOuts(a.recs, op)}
       [] op.app = "merge"      -> {Merged([k \in 1..Len(op.srcs) |-> In(fs, op, k)], op)}
       [] op.app = "srs"        -> IF op.cmd = "get" THEN {[k |-> "lines", v |-> [k \in 1..Len(op.srcs) |-> HeaderOf(In(fs, op, k))[1]]]}
                                   ELSE {[a EXCEPT !.w = op.w]}
       [] op.app = "tool"       ->
            CASE op.cmd = "get-field" -> {[k |-> "lines", v |-> FieldText(a.recs, op.d)]}
              [] op.cmd \in {"recenter-xy", "recenter-xyz"} ->
                   {WithRecs(a, [n \in 1..Len(a.recs) |-> [f \in 1..10 |->
                       IF f \in AxesOf(op.cmd) THEN a.recs[n][f] - SumAx(a.recs, f) \div Len(a.recs) ELSE a.recs[n][f]]])}
              [] op.cmd \in {"subtract-min-xy", "subtract-min-xyz"} -> {WithRecs(a, SubMin(a.recs, AxesOf(op.cmd)))}
              [] op.cmd = "resize-extra" -> {WithRecs(a, ResizeExtra(a.recs, op.m))}
              [] op.cmd = "set-field" -> {WithRecs(a, SetField(a.recs, op.d, In(fs, op, 2).v))}
              [] op.cmd = "upsample" -> {WithRecs(In(fs, op, 2), Upsample(a.recs, In(fs, op, 2).recs, op.res))}

Ok(wr, so) == [rc |-> 0, wr |-> wr, so |-> so, to |-> FALSE]
Failed(wr) == [rc |-> 1, wr |-> wr, so |-> None, to |-> FALSE]
Changed(n, c) == IF File(fs, n) = c THEN << >> ELSE <<<<n, c>>>>

Outcomes(op) ==
  IF op.app = "diff"
  THEN {IF ~ MissingInput(fs, op) /\ ~ BadInput(fs, op) /\ op.mode # "bad" /\ DiffEqual(In(fs, op, 1), In(fs, op, 2), op) # op.rev
        THEN Ok(<< >>, None) ELSE Failed(<< >>)}
  ELSE IF op.app = "tile"
  THEN LET a == In(fs, op, 1)  nums == TileNumbers(a.recs, op)
           ts == SetToSeq(Range(nums))
           clash == ~ op.force /\ \E t \in Range(nums) : TileName(op, t) \in DOMAIN fs
           all == [k \in 1..Len(ts) |-> <<TileName(op, ts[k]), TileContent(a, op, nums, ts[k])>>]
       IN IF clash THEN {Failed(<< >>)} ELSE {Ok(SelectSeq(all, LAMBDA q : File(fs, q[1]) # q[2]), None)}
  ELSE IF MustFail(fs, op) THEN {Failed(<< >>)}
  ELSE {IF op.dst = "" THEN Ok(<< >>, r) ELSE Ok(Changed(op.dst, r), None) : r \in Results(op)}

Init ==
  /\ fs \in {("a" :> a) @@ ("b" :> b) @@ ("t" :> [k |-> "text", v |-> <<W4(3), W4(70000), W4(1)>>, nbad |-> nb]) :
               a \in CloudsOf(MaxRecs), b \in {CHOOSE q \in CloudsOf(1) : q.recs # << >> /\ ~ q.c, Cloud("h41", TRUE, << >>)}, nb \in {0, 2}}
  /\ last = [op |-> [app |-> "put"], o |-> Ok(<< >>, None), pre |-> << >>]
  /\ hist = << >>
  /\ d = 0

Step(op, o) ==
  /\ fs' = Update(fs, o.wr)
  /\ last' = [op |-> op, o |-> o, pre |-> fs]
  /\ hist' = hist
  /\ d' = d + 1

Succeed == d < Depth /\ \E op \in Ops : \E o \in Outcomes(op) : o.rc = 0 /\ Step(op, o)
Refuse  == d < Depth /\ \E op \in Ops : \E o \in Outcomes(op) : o.rc # 0 /\ Step(op, o)
(* the output device fails part way: announced by op.fault *)
Fault   == d < Depth /\ \E op \in Ops :
             /\ Has(op, "dst") /\ op.dst # "" /\ ~ MustFail(fs, op)
             /\ Step([fault |-> TRUE] @@ op, Failed(<<<<op.dst, [k |-> "junk", h |-> "", n |-> 0]>>>>))
(* a step at which the laws are evaluated on the chosen input clouds *)
Examine == d = 0 /\ Step([app |-> "put"], Ok(<< >>, None))
AtLaw == d = 1 /\ last.op.app = "put"
Next == Succeed \/ Refuse \/ Fault \/ Examine
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* invariants of the system *)
AllValid == \A n \in DOMAIN fs : fs[n].k = "spoc" => ValidCloud(fs[n])
Accepted == d > 0 => Permits(last.pre, last.op, last.o)
(* inputs survive: only the destination changes *)
InputsUntouched == d > 0 => \A n \in {"a", "b", "t"} : fs[n] = last.pre[n]

(* corrupted outcomes of a successful command are rejected *)
Spoil(c) ==
  IF c.k # "spoc" THEN {}
  ELSE {[c EXCEPT !.w = "h00"], [c EXCEPT !.c = ~ @], [k |-> "empty"], [k |-> "none"], [k |-> "junk", h |-> "", n |-> 3]}
       \cup (IF c.recs = << >> THEN {} ELSE
              {[c EXCEPT !.recs = SubSeq(@, 1, Len(@) - 1)], [c EXCEPT !.recs = Append(@, @[1])],
               [c EXCEPT !.recs[1][R] = <<99>>], [c EXCEPT !.recs[Len(c.recs)][3] = @ + 50]})
Tight ==
  (d > 0 /\ last.o.rc = 0 /\ last.op.app \notin {"put", "diff", "tile"}) =>
    /\ ~ Permits(last.pre, last.op, Failed(<< >>)) \/ MayFail(last.pre, last.op)
    /\ \A bad \in Spoil(Delivered(last.pre, last.op, last.o)) :
         ~ Permits(last.pre, last.op, IF last.op.dst = "" THEN Ok(<< >>, bad) ELSE Ok(<<<<last.op.dst, bad>>>>, None))
    /\ ~ Permits(last.pre, last.op, [last.o EXCEPT !.wr = Append(@, <<"b", None>>)])
    /\ ~ Permits(last.pre, last.op, [last.o EXCEPT !.to = TRUE])
TightFail ==
  (d > 0 /\ last.o.rc # 0 /\ last.op.app \notin {"put", "tile"} /\ ~ Has(last.op, "fault")) =>
    ~ Permits(last.pre, last.op, Ok(<< >>, None))
TightTile ==
  (d > 0 /\ last.op.app = "tile") =>
    /\ last.o.rc = 0 => \A k \in 1..Len(last.o.wr) :
         /\ ~ Permits(last.pre, last.op, [last.o EXCEPT !.wr[k][2] = [last.o.wr[k][2] EXCEPT !.recs = Append(@, @[1])]])
         /\ last.pre = << >> \/ ~ Permits(last.pre, last.op, [last.o EXCEPT !.wr = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))])
    /\ ~ Permits(last.pre, last.op, [last.o EXCEPT !.wr = Append(@, <<"a", [k |-> "junk", h |-> "", n |-> 0]>>)])

(* tiling without force leaves every file that was there alone *)
NoClobber ==
  (d > 0 /\ last.op.app = "tile") =>
    \A n \in DOMAIN last.pre :
      /\ ~ last.op.force => n \in DOMAIN fs /\ fs[n] = last.pre[n]
      /\ n \in DOMAIN fs
---------------------------------------------------------------------------
(* Laws, on every cloud a of the model *)
A == fs["a"]
IsSub(s, t) == \* s is a subsequence of t
  LET f == FoldLeft(LAMBDA k, q : IF k <= Len(s) /\ s[k] = q THEN k + 1 ELSE k, 1, t) IN f > Len(s)
Multi(s) == [q \in Range(s) |-> Cardinality({n \in 1..Len(s) : s[n] = q})]
F(keep, rem, u, res, co) == FilterRecs(A.recs, FilterOp("a", keep, rem, u, res, co, FALSE))

LawFilter == AtLaw =>
  /\ \A c \in CS :
       LET k == F(<<W2(c)>>, << >>, FALSE, 0, NoCoord)  r == F(<< >>, <<W2(c)>>, FALSE, 0, NoCoord)
       IN /\ IsSub(k, A.recs) /\ IsSub(r, A.recs)
          /\ Len(k) + Len(r) = Len(A.recs)
          /\ \A n \in 1..Len(k) : k[n][C] = W2(c)
          /\ \A n \in 1..Len(r) : r[n][C] # W2(c)
  /\ \A ax \in 1..2, v \in XS :
       LET g == F(<< >>, << >>, FALSE, 0, [ax |-> ax, gt |-> TRUE, v |-> v])
           s == F(<< >>, << >>, FALSE, 0, [ax |-> ax, gt |-> FALSE, v |-> v])
       IN /\ \A n \in 1..Len(g) : g[n][ax] <= v
          /\ \A n \in 1..Len(s) : s[n][ax] >= v
          /\ Len(A.recs) + Cardinality({n \in 1..Len(A.recs) : A.recs[n][ax] = v}) = Len(g) + Len(s)
  /\ LET u == F(<< >>, << >>, TRUE, 0, NoCoord)
     IN /\ FirstPerSort(A.recs, XYZ) = u
        /\ IsSub(u, A.recs) /\ FirstPer(u, XYZ) = u
        /\ {XYZ(u[n]) : n \in 1..Len(u)} = {XYZ(A.recs[n]) : n \in 1..Len(A.recs)}
        /\ OneOfEach(A.recs, u, [coord |-> NoCoord], XYZ)
  /\ \A res \in 1..3 :
       LET s == F(<< >>, << >>, FALSE, res, NoCoord)
       IN /\ IsSub(s, A.recs)
          /\ A.recs # << >> => LET mn == MinCorner(A.recs) IN OneOfEach(A.recs, s, [coord |-> NoCoord], LAMBDA q : Vox(q, mn, res))
          (* the earliest choice is one of the permitted choices, with and without a comparison *)
          /\ \A ax \in 1..2, v \in XS, u \in BOOLEAN :
               LET t == [ax |-> ax, gt |-> u, v |-> v]
               IN A.recs # << >> => LET mn == MinCorner(A.recs) IN
                    OneOfEach(A.recs, F(<< >>, << >>, u, res, t), [coord |-> t], LAMBDA q : Vox(q, mn, res))
          (* upsampling from a subsampled cloud assigns every record *)
          /\ LET up == Upsample(s, A.recs, res)
             IN /\ Len(up) = Len(A.recs)
                /\ A.recs # << >> => LET mn == MinCorner(A.recs) IN
                     \A n \in 1..Len(up) : \E k \in 1..Len(s) : Vox(s[k], mn, res) = Vox(up[n], mn, res) /\ up[n][C] = s[k][C]

(* upsampling: only classes change, each to that of the last low record in the voxel *)
LawUpsample == AtLaw =>
  \A res \in 1..3 :
    LET hi == fs["b"].recs  up == Upsample(A.recs, hi, res)
    IN /\ Len(up) = Len(hi)
       /\ hi # << >> => LET mn == MinCorner(hi) IN
            \A n \in 1..Len(hi) :
              LET hit == {k \in 1..Len(A.recs) : Vox(A.recs[k], mn, res) = Vox(hi[n], mn, res)}
              IN up[n] = [hi[n] EXCEPT ![C] = IF hit = {} THEN @ ELSE A.recs[MaxOf(hit)][C]]

(* the verdict on an outcome does not depend on where the output goes *)
LawSurface ==
  (d > 0 /\ last.o.rc = 0 /\ Has(last.op, "dst") /\ last.op.dst # "") =>
    LET out == Delivered(last.pre, last.op, last.o)
    IN Permits(last.pre, [last.op EXCEPT !.dst = ""], Ok(<< >>, out))

T(cmds) == TransformRecs(A.recs, cmds)
LawTransform == AtLaw =>
  /\ \A c1, c2 \in {c \in Cmd1 : ~ BadCmd(c) /\ ~ LacksField(A, c)} :
       LET b == [A EXCEPT !.recs = T(<<c1>>)] IN T(<<c1, c2>>) = TransformRecs(b.recs, <<c2>>)
  /\ \A ax \in 1..3 :
       LET r == [n |-> "rot", ax |-> ax, q |-> 1]  i == [n |-> "rot", ax |-> ax, q |-> 3]
       IN /\ T(<<r, r, r, r>>) = A.recs /\ T(<<r, i>>) = A.recs
          /\ \A n \in 1..Len(A.recs) :
               LET p == T(<<r>>)[n]  q == A.recs[n]
               IN p[ax] = q[ax] /\ p[1]*p[1] + p[2]*p[2] + p[3]*p[3] = q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
  /\ \A p \in 1..4 : LET qz == [n |-> "quant", p |-> p, o |-> <<0, 0, 0>>]
                     IN /\ T(<<qz, qz>>) = T(<<qz>>)
                        /\ \A n \in 1..Len(A.recs), ax \in 1..3 :
                             LET v == A.recs[n][ax]  w == T(<<qz>>)[n][ax]
                             IN (Abs(w) % p) = 0 /\ Abs(w) <= Abs(v) /\ Abs(v) - Abs(w) < p /\ v * w >= 0
  /\ \A c \in {c \in Cmd1 : ~ BadCmd(c) /\ ~ LacksField(A, c)} :
       /\ Len(T(<<c>>)) = Len(A.recs)
       /\ c.n \in {"set", "replace", "replnot", "copy"} =>
            \A n \in 1..Len(A.recs), f \in FieldNames : f # c.d.f => Get(T(<<c>>)[n], FD(f)) = Get(A.recs[n], FD(f))
       /\ c.n = "replace" => \A n \in 1..Len(A.recs) : ~ WEq(Get(A.recs[n], c.d), c.old) => T(<<c>>)[n] = A.recs[n]

(* Pythagorean rotations preserve distances and compose to the identity with their inverse *)
LawGeometry == AtLaw =>
  LET up == TransformRecs(A.recs, <<[n |-> "scale", ax |-> 1, num |-> 25, den |-> 1], [n |-> "scale", ax |-> 2, num |-> 25, den |-> 1],
                                    [n |-> "scale", ax |-> 3, num |-> 25, den |-> 1]>>)
      Sq(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
  IN \A ax \in 1..3, t \in {<<3, 4>>, <<-4, 3>>, <<4, -3>>} :
       LET r == [n |-> "rotp", ax |-> ax, cs |-> t[1], sn |-> t[2], den |-> 5]
           i == [n |-> "rotp", ax |-> ax, cs |-> t[1], sn |-> -t[2], den |-> 5]
           out == TransformRecs(up, <<r>>)
       IN /\ TransformRecs(up, <<r, i>>) = up
          /\ \A n \in 1..Len(up) : out[n][ax] = up[n][ax] /\ Sq(out[n]) = Sq(up[n])
          /\ \A m, n \in 1..Len(up) :
               Sq(<<out[n][1] - out[m][1], out[n][2] - out[m][2], out[n][3] - out[m][3]>>)
                 = Sq(<<up[n][1] - up[m][1], up[n][2] - up[m][2], up[n][3] - up[m][3]>>)

LawMerge == AtLaw =>
  LET b == fs["b"]  m == Merged(<<A, b, A>>, [id |-> << >>])
  IN ~ MergeConflict(<<A, b>>) =>
     /\ Len(m.recs) = 2 * Len(A.recs) + Len(b.recs)
     /\ \A n \in 1..Len(A.recs) : [m.recs[n] EXCEPT ![P] = A.recs[n][P]] = A.recs[n] /\ m.recs[n][P] = W2(0)
     /\ \A n \in 1..Len(A.recs) : m.recs[Len(A.recs) + Len(b.recs) + n][P] = W2(2)
     /\ m.w = A.w /\ (m.c <=> (A.c /\ b.c))
     /\ SrsDiffer(<<A, b>>) = (A.w # b.w) /\ ~ SrsDiffer(<<A, A, A>>)
     /\ A.recs # << >> /\ b.recs # << >> =>
          /\ ~ MostlyEmpty(<<A, A>>) /\ MostlyEmpty(<<A, b>>) = MostlyEmpty(<<b, A>>)
          /\ MostlyEmpty(<<A, b, [A EXCEPT !.recs = <<A.recs[1]>>]>>) = MostlyEmpty(<<A, b>>)

LawTile == AtLaw =>
  \A op \in TileOps("a"), down \in BOOLEAN :
    A.recs # << >> =>
    LET nums == TileNumbersBy(A.recs, op, down)  mn == MinCorner(A.recs)  mx == MaxCorner(A.recs)
        ext == <<mx[1] - mn[1], mx[2] - mn[2]>>
        D == IF ext[1] > ext[2] THEN ext[1] ELSE ext[2]
        cell(q) == IF op.mode = "n" THEN <<CellN(q[1] - mn[1], op.n, D, down), CellN(q[2] - mn[2], op.n, D, down)>>
                   ELSE <<CellS(q[1] - mn[1], op.sx), CellS(q[2] - mn[2], op.sy)>>
    IN /\ \A i, j \in 1..Len(A.recs) : (nums[i] = nums[j]) <=> (cell(A.recs[i]) = cell(A.recs[j]))
       /\ \A n \in 1..Len(A.recs) : op.mode = "n" => cell(A.recs[n])[1] \in 0..(op.n - 1) /\ cell(A.recs[n])[2] \in 0..(op.n - 1)
       /\ \A t \in Range(nums) : IsSub(TileRecs(A.recs, nums, t), A.recs)
       /\ FoldLeft(LAMBDA s, t : s + Len(TileRecs(A.recs, nums, t)), 0, SetToSeq(Range(nums))) = Len(A.recs)
       /\ Cardinality({TileName(op, t) : t \in Range(nums)}) = Cardinality(Range(nums))

LawTool == AtLaw =>
  /\ \A x \in {FD("c"), FD("p"), FD("i"), FE(0)} :
       HasField(A, x) =>
         /\ SetField(A.recs, x, FieldText(A.recs, x)) = A.recs
         /\ \A v \in {<<W4(3), W4(700), W4(1)>>} : FieldText(SetField(A.recs, x, v), x) = SubSeq(v, 1, Len(A.recs))
  /\ \A m \in 0..2 : LET r == ResizeExtra(A.recs, m) IN
       /\ Len(r) = Len(A.recs) /\ ResizeExtra(r, m) = r
       /\ m >= A.E => ResizeExtra(r, A.E) = A.recs
  /\ A.recs # << >> => LET s == SubMin(A.recs, {1, 2}) IN
       /\ MinAx(s, 1) = 0 /\ MinAx(s, 2) = 0 /\ SubMin(s, {1, 2}) = s
       /\ \A i, j \in 1..Len(s) : s[i][1] - s[j][1] = A.recs[i][1] - A.recs[j][1]

LawDiff == AtLaw =>
  LET b == fs["b"] IN
  \A op \in {o \in DiffOps : o.mode # "bad"} :
    /\ DiffEqual(A, A, op)
    /\ DiffEqual(A, b, op) <=> DiffEqual(b, A, op)
    /\ (SameHeader(A, b) /\ SameData(A, b)) <=> (SameHeader(A, b) /\ A.recs = b.recs)
    /\ SameData(A, b) => \A f \in {FD("x"), FD("c"), FE(0)} : SameField(A, b, f)

---------------------------------------------------------------------------
(* behaviour generation: -simulate, one JSON line per behaviour *)
GenInit == Init /\ Len(fs["a"].recs) >= 1
GenNext ==
  /\ d < Depth
  /\ \E op \in {RandomElement(Ops)} : \E o \in {RandomElement(Outcomes(op))} :
       /\ fs' = Update(fs, o.wr) /\ last' = [op |-> op, o |-> o, pre |-> << >>]
       /\ hist' = Append(hist, [op |-> op, rc |-> o.rc]) /\ d' = d + 1
  /\ IF d' = Depth THEN PrintT("BEHAVIOUR " \o ToJson([init |-> [a |-> fs["a"], b |-> fs["b"], t |-> fs["t"]], hist |-> hist'])) ELSE TRUE
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
