------------------------------ MODULE SpocShell ------------------------------
(* The file store and the commands run on it. fs maps file names to         *)
(* contents; a command op has an outcome o =                                *)
(*   [rc, wr, so, to]: exit status (0/1), changed files <<name, content>>,  *)
(*   standard output, and whether it had to be killed.                      *)
(* Contents: [k |-> "spoc", ...] cloud; "dig" large cloud with one digest   *)
(* per column; "junk" anything else (hdr, if present: the readable header); *)
(* "text" with values v (nbad: position of the first value that is not a    *)
(* number, 0 if none); "lines"; "empty"; "none" (no such file).             *)
EXTENDS SpocInfo

None == [k |-> "none"]
File(fs, n) == IF n \in DOMAIN fs THEN fs[n] ELSE None
Names(wr) == {wr[n][1] : n \in 1..Len(wr)}
After(fs, wr, name) ==
  IF name \in Names(wr) THEN wr[CHOOSE n \in 1..Len(wr) : wr[n][1] = name][2] ELSE File(fs, name)
Update(fs, wr) ==
  LET gone == {n \in Names(wr) : After(fs, wr, n).k = "none"}
      dom == (DOMAIN fs \cup Names(wr)) \ gone
  IN [n \in dom |-> After(fs, wr, n)]

IsData(x) == x.k \in {"spoc", "dig"}
HeaderOf(x) == IF IsData(x) THEN <<x.w>> ELSE IF x.k = "junk" /\ Has(x, "hdr") THEN <<x.hdr>> ELSE << >>

Sources(op) == IF Has(op, "srcs") THEN op.srcs ELSE <<op.src>>
In(fs, op, k) == File(fs, Sources(op)[k])
MissingInput(fs, op) == \E k \in 1..Len(Sources(op)) : In(fs, op, k).k = "none"

(* same stored cloud: a file without records may state any number of extra fields *)
SameStored(D, e) ==
  IF D.k # e.k THEN FALSE
  ELSE IF e.k = "spoc" /\ e.recs = << >> THEN D.recs = << >> /\ D.w = e.w /\ D.c = e.c
  ELSE D = e

---------------------------------------------------------------------------
(* When a command has to fail, given readable inputs                        *)
NeedsAllData(op) == ~(op.app = "srs" /\ op.cmd = "get")

BadInput(fs, op) ==
  \E k \in 1..Len(Sources(op)) :
    LET x == In(fs, op, k)
    IN IF op.app = "tool" /\ op.cmd = "set-field" /\ k = 2 THEN x.k \notin {"text", "empty"}
       ELSE IF NeedsAllData(op) THEN ~ IsData(x) ELSE HeaderOf(x) = << >>

Refuses(fs, op) ==
  LET a == In(fs, op, 1)
  IN CASE op.app = "compress"   -> a.c
       [] op.app = "decompress" -> ~ a.c
       [] op.app = "transform"  ->
            \/ a.c
            \/ op.cmds = << >>
            \/ \E k \in 1..Len(op.cmds) : BadCmd(op.cmds[k])
            \/ a.k = "spoc" /\ a.recs # << >> /\ \E k \in 1..Len(op.cmds) : LacksField(a, op.cmds[k])
       [] op.app = "merge"      -> Len(op.srcs) < 2 \/ MergeConflict([k \in 1..Len(op.srcs) |-> In(fs, op, k)])
       [] op.app = "filter"     -> op.coord.ax = 4
       [] op.app = "srs"        -> Has(op, "toolong") /\ op.toolong   \* a text the format cannot represent
       [] op.app = "tool"       ->
            CASE op.cmd = "get-field"    -> ~ IsField(op.d) \/ (a.recs # << >> /\ ~ HasField(a, op.d))
              [] op.cmd = "set-field"    ->
                   LET t == In(fs, op, 2)  vals == IF t.k = "text" THEN Len(t.v) ELSE 0
                   IN \/ ~ IsField(op.d)
                      \/ a.recs # << >> /\ vals < Len(a.recs)
                      \/ a.recs # << >> /\ t.k = "text" /\ t.nbad # 0 /\ t.nbad <= Len(a.recs)
                      \/ op.d.f = "e" /\ op.d.j > 254 /\ a.recs # << >>
              [] op.cmd = "resize-extra" -> op.m < 0 \/ op.m > 255
              [] op.cmd = "upsample"     -> op.res <= 0
              [] OTHER -> FALSE
       [] OTHER -> FALSE

MustFail(fs, op) == MissingInput(fs, op) \/ BadInput(fs, op) \/ Refuses(fs, op)
(* allowed but not obliged to fail: an announced output fault; a field that *)
(* no record could show to be missing; an output file that is also an input *)
MayFail(fs, op) ==
  \/ Has(op, "fault") /\ op.fault
  \/ Has(op, "dst") /\ op.dst \in Range(Sources(op))
  \/ LET a == In(fs, op, 1)
     IN /\ a.k = "spoc" /\ a.recs = << >>
        /\ \/ op.app = "transform"
           \/ op.app = "tool" /\ op.cmd \in {"get-field", "set-field"}
           \/ op.app = "tile"

---------------------------------------------------------------------------
(* What a successful command delivers                                       *)
AxesOf(cmd) == IF cmd \in {"recenter-xyz", "subtract-min-xyz"} THEN {1, 2, 3} ELSE {1, 2}

Accepts(fs, op, D) ==
  LET a == In(fs, op, 1)
  IN CASE op.app = "info"       ->
            Has(op, "sw") => D.k = "report" /\ InfoOK([k \in 1..Len(op.srcs) |-> In(fs, op, k)], op.sw, op.step, D.items)
       [] op.app = "compress"   -> SameStored(D, [a EXCEPT !.c = TRUE])
       [] op.app = "decompress" -> SameStored(D, [a EXCEPT !.c = FALSE])
       [] op.app = "transform"  ->
            IF \E k \in 1..Len(op.cmds) : op.cmds[k].n = "opaque"
            THEN OpaqueOK(a, op.cmds, D)
            ELSE IF op.cmds[1].n = "noise"
            THEN D.k = "spoc" /\ D.w = a.w /\ D.c = a.c /\ D.E = a.E /\ NoiseOK(a, op.cmds[1], D)
            ELSE D = [a EXCEPT !.recs = TransformRecs(@, op.cmds)]
       [] op.app = "filter"     ->
            /\ D.k = "spoc" /\ D.w = a.w /\ D.c = a.c
            /\ D.recs # << >> => D.E = a.E
            /\ FilterOK(a.recs, op, D.recs)
       [] op.app = "merge"      ->
            LET ins == [k \in 1..Len(op.srcs) |-> In(fs, op, k)]
            IN SameStored(D, Merged(ins, op)) /\ (Has(op, "warn") => WarningsOK(ins, op))
       [] op.app = "srs"        ->
            IF op.cmd = "get" THEN D = [k |-> "lines", v |-> [k \in 1..Len(op.srcs) |-> HeaderOf(In(fs, op, k))[1]]]
            ELSE SameStored(D, [a EXCEPT !.w = op.w])
       [] op.app = "tool"       ->
            CASE op.cmd = "get-field" -> D = [k |-> "lines", v |-> FieldText(a.recs, op.d)]
              [] op.cmd \in {"recenter-xy", "recenter-xyz"} ->
                   /\ D.k = "spoc" /\ D.w = a.w /\ D.c = a.c /\ (D.recs # << >> => D.E = a.E)
                   /\ RecenterOK(a.recs, AxesOf(op.cmd), D.recs)
              [] op.cmd \in {"subtract-min-xy", "subtract-min-xyz"} ->
                   SameStored(D, WithRecs(a, SubMin(a.recs, AxesOf(op.cmd))))
              [] op.cmd = "resize-extra" -> SameStored(D, WithRecs(a, ResizeExtra(a.recs, op.m)))
              [] op.cmd = "set-field" -> SameStored(D, WithRecs(a, SetField(a.recs, op.d, IF a.recs = << >> THEN << >> ELSE In(fs, op, 2).v)))
              [] op.cmd = "upsample" ->
                   LET hi == In(fs, op, 2) IN SameStored(D, WithRecs(hi, Upsample(a.recs, hi.recs, op.res)))

---------------------------------------------------------------------------
(* Tiling has many destinations                                             *)
TileTargets(fs, op) ==
  LET a == In(fs, op, 1)
  IN {TileName(op, t) : t \in Range(TileNumbers(a.recs, op)) \cup Range(TileNumbersBy(a.recs, op, TRUE))}
TileContent(a, op, nums, t) == Cloud(a.w, a.c, TileRecs(a.recs, nums, t))

TilePermitsBy(fs, op, o, down) ==
  IF MissingInput(fs, op) \/ BadInput(fs, op) THEN o.rc # 0 /\ o.wr = << >>
  ELSE LET a == In(fs, op, 1)
           nums == TileNumbersBy(a.recs, op, down)
           targets == {TileName(op, t) : t \in Range(nums)}
           clash == ~ op.force /\ targets \cap DOMAIN fs # {}
       IN /\ o.so = None
          /\ Names(o.wr) \subseteq targets
          /\ ~ op.force => Names(o.wr) \cap DOMAIN fs = {}
          /\ IF o.rc # 0 THEN clash \/ MayFail(fs, op)
             ELSE /\ ~ clash
                  /\ \A t \in Range(nums) :
                       After(fs, o.wr, TileName(op, t)) = TileContent(a, op, nums, t)

TilePermits(fs, op, o) == TilePermitsBy(fs, op, o, FALSE) \/ (op.mode = "n" /\ TilePermitsBy(fs, op, o, TRUE))

---------------------------------------------------------------------------
Delivered(fs, op, o) == IF op.dst = "" THEN o.so ELSE After(fs, o.wr, op.dst)
OnlyDst(op, o) == Names(o.wr) \subseteq (IF op.dst = "" THEN {} ELSE {op.dst})

DiffPermits(fs, op, o) ==
  /\ o.wr = << >> /\ o.so = None
  /\ IF MissingInput(fs, op) \/ BadInput(fs, op) \/ op.mode = "bad" THEN o.rc # 0
     ELSE (o.rc = 0) <=> (DiffEqual(In(fs, op, 1), In(fs, op, 2), op) # op.rev)

(* equal up to one lattice unit per coordinate *)
NearCloud(a, b) ==
  /\ a.k = "spoc" /\ b.k = "spoc" /\ SameHeader(a, b)
  /\ \A n \in 1..Len(a.recs) : (\A f \in 4..10 : a.recs[n][f] = b.recs[n][f]) /\ (\A f \in 1..3 : Tame(a.recs[n][f]) /\ Tame(b.recs[n][f]) /\ Abs(a.recs[n][f] - b.recs[n][f]) <= 1)

Permits(fs, op, o) ==
  /\ ~ o.to
  /\ CASE op.app = "put"  -> TRUE
       [] op.app = "same" -> \A k \in 1..Len(op.srcs) : In(fs, op, k) = In(fs, op, 1) /\ In(fs, op, 1).k # "none"
       [] op.app = "near" -> NearCloud(In(fs, op, 1), In(fs, op, 2))
       [] op.app = "differ" -> \A k, j \in 1..Len(op.srcs) : k < j => In(fs, op, k) # In(fs, op, j)
       [] Has(op, "usage") ->
            /\ o.wr = << >>
            /\ IF op.usage = "bad" THEN o.rc # 0 ELSE o.rc = 0
       [] op.app = "diff" -> DiffPermits(fs, op, o)
       [] op.app = "tile" -> TilePermits(fs, op, o)
       [] OTHER ->
            /\ OnlyDst(op, o)
            /\ IF MissingInput(fs, op) THEN o.rc # 0 /\ o.wr = << >>
               ELSE IF o.rc # 0 THEN MustFail(fs, op) \/ MayFail(fs, op)
               ELSE /\ ~ MustFail(fs, op)
                    /\ op.dst # "" => o.so = None
                    /\ Accepts(fs, op, Delivered(fs, op, o))

(* results of one and the same command (op.det) on the same inputs are the same *)
OutputSet(fs, op, o) ==
  IF op.app = "tile" THEN {After(fs, o.wr, n) : n \in TileTargets(fs, op)}
  ELSE IF Has(op, "dst") THEN {Delivered(fs, op, o)} ELSE {}
MemoOf(fs, op, o) ==
  [id |-> op.det, ins |-> [k \in 1..Len(Sources(op)) |-> In(fs, op, k)], rc |-> o.rc,
   out |-> IF o.rc = 0 THEN OutputSet(fs, op, o) ELSE {}]
Consistent(memo, m) == \A q \in memo : q.id = m.id /\ q.ins = m.ins => q = m
=============================================================================
