------------------------------- MODULE SpocArgs -------------------------------
(* Command lines. Parse is the automaton that turns the words of a command   *)
(* line into options, values and names of files (long names, abbreviations   *)
(* that fit one option only, letters and groups of letters, values attached  *)
(* or separate, names between options, "--"); OpOf is the command of         *)
(* SpocShell the line stands for. Two lattice steps make one unit.           *)
EXTENDS SpocShell

Opt(n, s, a) == [n |-> n, s |-> s, a |-> a]    \* name, letter ("" for none), takes a value
Common == {Opt("help", "h", FALSE), Opt("verbose", "v", FALSE), Opt("version", "e", FALSE)}
Flags(S) == {Opt(n, "", FALSE) : n \in S}
Valued(S) == {Opt(n, "", TRUE) : n \in S}

OptionsOf ==
  [compress   |-> Common,
   decompress |-> Common,
   diff       |-> Common \cup {Opt("header-only", "a", FALSE), Opt("data-only", "d", FALSE), Opt("field", "f", TRUE), Opt("reverse", "r", FALSE)},
   filter     |-> Common \cup {Opt("keep-class", "k", TRUE), Opt("random-seed", "a", TRUE), Opt("remove-class", "r", TRUE),
                               Opt("unique-xyz", "u", FALSE), Opt("subsample", "s", TRUE), Opt("remove-coords", "c", TRUE)},
   info       |-> Common \cup {Opt("json", "j", FALSE), Opt("header-info", "a", FALSE), Opt("summary-info", "s", FALSE),
                               Opt("classification-info", "l", FALSE), Opt("metric-info", "m", FALSE), Opt("compact", "c", FALSE),
                               Opt("quartiles", "q", FALSE)},
   merge      |-> Common \cup {Opt("quiet", "q", FALSE), Opt("point-id", "p", TRUE)},
   srs        |-> Common \cup {Opt("srs", "s", TRUE)},
   tile       |-> Common \cup {Opt("force", "f", FALSE), Opt("tiles", "t", TRUE), Opt("digits", "d", TRUE), Opt("tile-size", "s", TRUE),
                               Opt("tile-size-x", "x", TRUE), Opt("tile-size-y", "y", TRUE), Opt("prefix", "p", TRUE)},
   tool       |-> Common \cup {Opt("get-field", "g", TRUE), Opt("set-field", "s", TRUE), Opt("field-filename", "f", TRUE)}
                         \cup Flags({"recenter-xy", "recenter-xyz", "subtract-min-xy", "subtract-min-xyz"})
                         \cup Valued({"resize-extra", "upsample-classifications", "resolution"}),
   transform  |-> Common \cup {Opt("random-seed", "a", TRUE)}
                         \cup Valued({"add-x", "add-y", "add-z", "copy-field", "gaussian-noise", "gaussian-noise-x", "gaussian-noise-y",
                                      "gaussian-noise-z", "quantize-xyz", "replace", "replace-not", "rotate-x", "rotate-y", "rotate-z",
                                      "scale-x", "scale-y", "scale-z", "set", "uniform-noise", "uniform-noise-x", "uniform-noise-y",
                                      "uniform-noise-z"})]
Programs == DOMAIN OptionsOf

---------------------------------------------------------------------------
(* words                                                                    *)
At(w, k) == SubSeq(w, k, k)
From(w, k) == SubSeq(w, k, Len(w))
StartsWith(p, w) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
Find(w, c) == IF \E k \in 1..Len(w) : At(w, k) = c THEN CHOOSE k \in 1..Len(w) : At(w, k) = c /\ \A j \in 1..(k - 1) : At(w, j) # c ELSE 0
RECURSIVE Split(_, _)
Split(w, c) == LET k == Find(w, c) IN IF k = 0 THEN <<w>> ELSE <<SubSeq(w, 1, k - 1)>> \o Split(From(w, k + 1), c)
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE n \in 0..9 : ToString(n) = c]
RECURSIVE Digits(_, _)
Digits(w, n) == IF w = "" THEN n ELSE Digits(From(w, 2), 10 * n + Digit[At(w, 1)])
ToInt(w) == IF w = "" THEN 0 ELSE IF At(w, 1) = "-" THEN 0 - Digits(From(w, 2), 0) ELSE Digits(w, 0)

(* decimal numbers, -12, .5, 3., -2.50, 5e-1: as [num, den], and in lattice steps *)
Numeral(w) ==
  LET neg == w # "" /\ At(w, 1) = "-"
      b == IF neg THEN From(w, 2) ELSE w
      k == Find(b, "e")
      ex == IF k = 0 THEN 0 ELSE ToInt(From(b, k + 1))
      parts == Split(IF k = 0 THEN b ELSE SubSeq(b, 1, k - 1), ".")
      frac == IF Len(parts) = 1 THEN "" ELSE parts[2]
      m == Digits(parts[1] \o frac, 0)
      x == ex - Len(frac)
  IN [num |-> (IF neg THEN -1 ELSE 1) * m * (IF x > 0 THEN 10 ^ x ELSE 1), den |-> IF x < 0 THEN 10 ^ (0 - x) ELSE 1]
PerUnit == 2
Steps(w) == LET v == Numeral(w) IN IF v.num < 0 THEN 0 - ((0 - v.num) * PerUnit) \div v.den ELSE (v.num * PerUnit) \div v.den

---------------------------------------------------------------------------
(* the automaton: words i.. of argv, options so far (in order), names so far *)
NotUnderstood == [ok |-> FALSE, opts |-> << >>, pos |-> << >>]
Candidates(table, w) == LET exact == {o \in table : o.n = w} IN IF exact # {} THEN exact ELSE {o \in table : StartsWith(w, o.n)}

RECURSIVE Words_(_, _, _, _, _), Letters(_, _, _, _, _, _)
Words_(table, argv, i, opts, pos) ==
  IF i > Len(argv) THEN [ok |-> TRUE, opts |-> opts, pos |-> pos]
  ELSE LET w == argv[i]
       IN IF w = "--" THEN [ok |-> TRUE, opts |-> opts, pos |-> pos \o SubSeq(argv, i + 1, Len(argv))]
          ELSE IF StartsWith("--", w)
          THEN LET q == Find(w, "=")
                   name == IF q = 0 THEN From(w, 3) ELSE SubSeq(w, 3, q - 1)
                   fit == Candidates(table, name)
               IN IF Cardinality(fit) # 1 THEN NotUnderstood
                  ELSE LET o == CHOOSE x \in fit : TRUE
                       IN IF o.n = "help" /\ q = 0 THEN [ok |-> TRUE, opts |-> Append(opts, <<"help", "">>), pos |-> pos]
                          ELSE IF ~ o.a THEN IF q # 0 THEN NotUnderstood ELSE Words_(table, argv, i + 1, Append(opts, <<o.n, "">>), pos)
                          ELSE IF q # 0 THEN Words_(table, argv, i + 1, Append(opts, <<o.n, From(w, q + 1)>>), pos)
                          ELSE IF i = Len(argv) THEN NotUnderstood
                          ELSE Words_(table, argv, i + 2, Append(opts, <<o.n, argv[i + 1]>>), pos)
          ELSE IF Len(w) > 1 /\ At(w, 1) = "-" THEN Letters(table, argv, i, 2, opts, pos)
          ELSE Words_(table, argv, i + 1, opts, Append(pos, w))
Letters(table, argv, i, k, opts, pos) ==
  LET w == argv[i]
  IN IF k > Len(w) THEN Words_(table, argv, i + 1, opts, pos)
     ELSE LET fit == {o \in table : o.s # "" /\ o.s = At(w, k)}
          IN IF fit = {} THEN NotUnderstood
             ELSE LET o == CHOOSE x \in fit : TRUE
                  IN IF o.n = "help" THEN [ok |-> TRUE, opts |-> Append(opts, <<"help", "">>), pos |-> pos]
                     ELSE IF ~ o.a THEN Letters(table, argv, i, k + 1, Append(opts, <<o.n, "">>), pos)
                     ELSE IF k < Len(w) THEN Words_(table, argv, i + 1, Append(opts, <<o.n, From(w, k + 1)>>), pos)
                     ELSE IF i = Len(argv) THEN NotUnderstood
                     ELSE Words_(table, argv, i + 2, Append(opts, <<o.n, argv[i + 1]>>), pos)

Parse(app, argv) == Words_(OptionsOf[app], argv, 1, << >>, << >>)

---------------------------------------------------------------------------
(* meaning                                                                  *)
Given(p, n) == \E k \in 1..Len(p.opts) : p.opts[k][1] = n
All(p, n) == LET s == SelectSeq(p.opts, LAMBDA x : x[1] = n) IN [k \in 1..Len(s) |-> s[k][2]]
Count(p, n) == Len(All(p, n))
Value(p, n, default) == IF Given(p, n) THEN All(p, n)[Count(p, n)] ELSE default   \* the last one counts

Coordinates == {"x", "y", "z"}
PlainFields == Coordinates \cup {"c", "p", "i", "r", "g", "b"}
FieldOf(w) ==
  IF w \in PlainFields THEN [f |-> w]
  ELSE IF Len(w) > 1 /\ At(w, 1) = "e" /\ (\A k \in 2..Len(w) : At(w, k) \in DOMAIN Digit) THEN [f |-> "e", j |-> ToInt(From(w, 2))]
  ELSE [f |-> "?"]
AxisOf(w) == IF w = "x" THEN 1 ELSE IF w = "y" THEN 2 ELSE 3
Word4(w) == WOf(ToInt(w), 4)
LastPart(n) == From(n, Len(n))

CommandOf(o) ==
  LET n == o[1]  v == o[2]  part == Split(v, ",")
  IN IF n \in {"add-x", "add-y", "add-z"} THEN [n |-> "add", ax |-> AxisOf(LastPart(n)), v |-> Steps(v)]
     ELSE IF n \in {"scale-x", "scale-y", "scale-z"} THEN [n |-> "scale", ax |-> AxisOf(LastPart(n)), num |-> Numeral(v).num, den |-> Numeral(v).den]
     ELSE IF n \in {"rotate-x", "rotate-y", "rotate-z"} THEN [n |-> "rot", ax |-> AxisOf(LastPart(n)), q |-> ((Steps(v) \div PerUnit) \div 90) % 4]
     ELSE IF n = "quantize-xyz" THEN [n |-> "quant", p |-> Steps(v), o |-> <<0, 0, 0>>]
     ELSE IF n = "set" THEN [n |-> "set", d |-> FieldOf(part[1]),
                             v |-> IF part[1] \in Coordinates THEN Steps(part[2]) ELSE Word4(part[2])]
     ELSE IF n = "copy-field" THEN [n |-> "copy", s |-> FieldOf(part[1]), d |-> FieldOf(part[2])]
     ELSE IF n = "replace" THEN [n |-> "replace", d |-> FieldOf(part[1]), old |-> Word4(part[2]), new |-> Word4(part[3])]
     ELSE IF n = "replace-not" THEN [n |-> "replnot", d |-> FieldOf(part[1]), keep |-> [k \in 1..(Len(part) - 2) |-> Word4(part[k + 1])],
                                     new |-> Word4(part[Len(part)])]
     ELSE LET u == StartsWith("uniform", n)
          IN [n |-> "noise", kind |-> IF u THEN "u" ELSE "g", m |-> Steps(v),
              axes |-> IF n \in {"uniform-noise", "gaussian-noise"} THEN <<1, 2, 3>> ELSE <<AxisOf(LastPart(n))>>]

ToolCommands == {"get-field", "set-field", "recenter-xy", "recenter-xyz", "subtract-min-xy", "subtract-min-xyz", "resize-extra",
                 "upsample-classifications"}
Toggled(p, n, default) == IF Count(p, n) % 2 = 0 THEN default ELSE ~ default

Wrong(app) == [app |-> app, usage |-> "bad"]
(* where the extension of a name without directories begins *)
Dot(w) == IF \E k \in 2..Len(w) : At(w, k) = "." THEN CHOOSE k \in 2..Len(w) : At(w, k) = "." /\ \A j \in (k + 1)..Len(w) : At(w, j) # "." ELSE Len(w) + 1

Most(app) == IF app \in {"compress", "decompress", "filter", "transform", "tool", "diff"} THEN 2 ELSE IF app = "tile" THEN 1 ELSE 99

Contradictory(app, p) ==
  CASE app = "diff" -> Cardinality({n \in {"header-only", "data-only", "field"} : Given(p, n)}) > 1
    [] app = "tile" -> Given(p, "tile-size") /\ (Given(p, "tile-size-x") \/ Given(p, "tile-size-y"))
    [] app = "tool" -> Len(SelectSeq(p.opts, LAMBDA x : x[1] \in ToolCommands)) > 1
    [] OTHER -> FALSE

(* in: the file standard input is connected to; hex: the tokens of texts     *)
OpOf(fs, app, argv, in, hex) ==
  LET p == Parse(app, argv)
      np == Len(p.pos)
      src == IF np = 0 THEN in ELSE p.pos[1]
      dst == IF np < 2 THEN "" ELSE p.pos[2]
      v(n, default) == Value(p, n, default)
      ints(n) == [k \in 1..Count(p, n) |-> WOf(ToInt(All(p, n)[k]), 2)]
  IN IF ~ p.ok THEN Wrong(app)
     ELSE IF Given(p, "help") THEN [app |-> app, usage |-> IF Contradictory(app, p) THEN "any" ELSE IF Given(p, "version") THEN "either" ELSE "help"]
     ELSE IF Given(p, "version") THEN [app |-> app, usage |-> IF np > Most(app) \/ Contradictory(app, p) THEN "any" ELSE "version"]
     ELSE IF np > Most(app) THEN Wrong(app)
     ELSE CASE app \in {"compress", "decompress"} -> [app |-> app, src |-> src, dst |-> dst, cmd |-> app]
            [] app = "diff" ->
                 LET fields == FoldLeft(LAMBDA x, y : x \o y, "", All(p, "field"))
                     h == Given(p, "header-only")  d == Given(p, "data-only")  f == fields # ""
                     des == [k \in 1..Len(fields) |-> FieldOf(IF At(fields, k) \in DOMAIN Digit THEN "e" \o At(fields, k) ELSE At(fields, k))]
                 IN IF np # 2 \/ (h /\ d) \/ (h /\ f) \/ (d /\ f) THEN Wrong(app)
                    ELSE [app |-> app, srcs |-> p.pos, rev |-> Given(p, "reverse"), fields |-> des, cmd |-> "diff",
                          mode |-> IF f THEN IF \E k \in 1..Len(des) : des[k].f = "?" THEN "bad" ELSE "fields"
                                   ELSE IF h THEN "header" ELSE IF d THEN "data" ELSE "all"]
            [] app = "filter" ->
                 LET c == Split(v("remove-coords", ""), " ")
                 IN [app |-> app, src |-> src, dst |-> dst, cmd |-> "filter", keep |-> ints("keep-class"), remove |-> ints("remove-class"),
                     uniq |-> Given(p, "unique-xyz"), res |-> Steps(v("subsample", "0")), rand |-> ToInt(v("random-seed", "0")) # 0,
                     coord |-> IF ~ Given(p, "remove-coords") THEN [ax |-> 0]
                               ELSE IF Len(c) # 3 \/ c[1] \notin Coordinates \/ c[2] \notin {"<", ">"} THEN [ax |-> 4]
                               ELSE [ax |-> AxisOf(c[1]), gt |-> c[2] = ">", v |-> Steps(c[3])]]
            [] app = "info" ->
                 [app |-> app, srcs |-> IF np = 0 THEN <<in>> ELSE p.pos, dst |-> "", cmd |-> "report", step |-> PerUnit,
                  sw |-> [j |-> Toggled(p, "json", FALSE), a |-> Toggled(p, "header-info", TRUE), s |-> Toggled(p, "summary-info", TRUE),
                          l |-> Toggled(p, "classification-info", TRUE), m |-> Toggled(p, "metric-info", TRUE),
                          c |-> Toggled(p, "compact", TRUE), q |-> Toggled(p, "quartiles", FALSE)]]
            [] app = "merge" ->
                 IF np < 2 THEN Wrong(app)
                 ELSE [app |-> app, srcs |-> p.pos, dst |-> "", cmd |-> "merge",
                       id |-> IF Given(p, "point-id") THEN WOf(ToInt(v("point-id", "")), 2) ELSE << >>]
            [] app = "srs" ->
                 IF Given(p, "srs")
                 THEN IF np \notin {0, 2} THEN Wrong(app)
                      ELSE [app |-> app, src |-> src, dst |-> dst, cmd |-> "set", w |-> hex[v("srs", "")]]
                 ELSE [app |-> app, srcs |-> IF np = 0 THEN <<in>> ELSE p.pos, dst |-> "", cmd |-> "get"]
            [] app = "tile" ->
                 LET s == Steps(v("tile-size", "0"))  x == Steps(v("tile-size-x", "0"))  y == Steps(v("tile-size-y", "0"))
                 IN IF np = 0 /\ v("prefix", "") = "" THEN Wrong(app)
                    ELSE IF s > 0 /\ (x > 0 \/ y > 0) THEN Wrong(app)
                    ELSE [app |-> app, src |-> src, cmd |-> "tile", mode |-> IF s + x + y = 0 THEN "n" ELSE "s", n |-> ToInt(v("tiles", "2")),
                          sx |-> IF s > 0 THEN s ELSE x, sy |-> IF s > 0 THEN s ELSE y,
                          digits |-> ToInt(v("digits", "3")), force |-> Given(p, "force"),
                          prefix |-> IF v("prefix", "") # "" THEN v("prefix", "") ELSE SubSeq(src, 1, Dot(src) - 1),
                          ext |-> IF np = 1 THEN From(src, Dot(src)) ELSE IF IsData(File(fs, src)) /\ File(fs, src).c THEN ".zpoc" ELSE ".spoc"]
            [] app = "tool" ->
                 LET cs == SelectSeq(p.opts, LAMBDA x : x[1] \in ToolCommands)
                     n == cs[1][1]  a == cs[1][2]
                 IN IF Len(cs) # 1 THEN Wrong(app)
                    ELSE IF n = "get-field"
                    THEN IF np > 1 THEN [app |-> app, usage |-> "any"] ELSE [app |-> app, src |-> src, dst |-> "", cmd |-> n, d |-> FieldOf(a)]
                    ELSE IF n = "set-field"
                    THEN IF ~ Given(p, "field-filename") THEN Wrong(app)
                         ELSE [app |-> app, srcs |-> <<src, v("field-filename", "")>>, dst |-> dst, cmd |-> n, d |-> FieldOf(a)]
                    ELSE IF n = "resize-extra" THEN [app |-> app, src |-> src, dst |-> dst, cmd |-> n, m |-> ToInt(a)]
                    ELSE IF n = "upsample-classifications"
                    THEN [app |-> app, src |-> src, srcs |-> <<src, a>>, dst |-> dst, cmd |-> "upsample", res |-> Steps(v("resolution", "0"))]
                    ELSE [app |-> app, src |-> src, dst |-> dst, cmd |-> n]
            [] app = "transform" ->
                 LET cs == SelectSeq(p.opts, LAMBDA x : x[1] \notin {"random-seed", "verbose"})
                 IN IF cs = << >> THEN Wrong(app)
                    ELSE [app |-> app, src |-> src, dst |-> dst, cmd |-> "transform", cmds |-> [k \in 1..Len(cs) |-> CommandOf(cs[k])]]

---------------------------------------------------------------------------
(* what a recorded line may do. e has the outcome, and: err - something was  *)
(* written to standard error; words - the options its help text names        *)
Helps(app, words) == \A o \in OptionsOf[app] : ("--" \o o.n) \in words /\ (o.s # "" => ("-" \o o.s) \in words)
Silent(app, p) == ~ Given(p, "verbose") /\ (app = "merge" => Count(p, "quiet") = 1)

LinePermits(fs, e) ==
  LET app == e.op.app
      p == Parse(app, e.op.argv)
      op == OpOf(fs, app, e.op.argv, e.op.in, e.op.hex)
      o == [rc |-> e.rc, wr |-> e.wr, so |-> e.so, to |-> e.to]
  IN /\ ~ e.to
     /\ IF Has(op, "usage")
        THEN /\ e.wr = << >>
             /\ op.usage = "bad" => e.rc # 0 /\ e.so = None /\ e.err
             /\ op.usage = "help" => e.rc = 0 /\ e.so = None /\ Helps(app, Range(e.words))
             /\ op.usage = "either" => e.rc = 0
             /\ op.usage = "version" => e.rc = 0 /\ e.so = [k |-> "version"]
        ELSE /\ Permits(fs, op, o)
             /\ e.rc = 0 /\ Silent(app, p) => ~ e.err
             /\ e.rc # 0 /\ (app = "diff" => MissingInput(fs, op) \/ BadInput(fs, op)) => e.err
=============================================================================
