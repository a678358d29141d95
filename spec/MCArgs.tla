------------------------------- MODULE MCArgs -------------------------------
(* A user types a command line, option by option, in any permitted spelling, *)
(* knowing what is meant; the automaton of SpocArgs has to understand just   *)
(* that. Writes lines out to be run on the real applications.                *)
EXTENDS SpocArgs, Json

CONSTANTS Longest,    \* options and names typed
          Spellings,  \* "few": full and shortest names, "all": every abbreviation
          Who         \* the programs

VARIABLES app, argv, want, names, turn, cur, open, kind, n
vars == <<app, argv, want, names, turn, cur, open, kind, n>>

Table == OptionsOf[app]
Axes(S) == {s \o "-" \o a : s \in S, a \in {"x", "y", "z"}}
Few(o) ==
  IF o.n = "field" THEN {"x", "ci", "0", "q"}
  ELSE IF o.n \in {"keep-class", "remove-class"} THEN {"1", "2"}
  ELSE IF o.n = "random-seed" THEN {"0", "5"}
  ELSE IF o.n \in {"subsample", "resolution", "tile-size", "quantize-xyz"} THEN {"2", "3"}
  ELSE IF o.n = "remove-coords" THEN {"x > 1", "z < -2", "x>1"}
  ELSE IF o.n = "point-id" THEN {"0", "70000"}
  ELSE IF o.n = "srs" THEN {"text", "-h", "=a=b"}
  ELSE IF o.n \in {"tiles", "tile-size-x", "tile-size-y"} THEN {"1", "3"}
  ELSE IF o.n = "digits" THEN {"1", "5"}
  ELSE IF o.n = "prefix" THEN {"t", "-p=q"}
  ELSE IF o.n = "get-field" THEN {"c", "x", "e1", "e2"}
  ELSE IF o.n = "set-field" THEN {"c", "i", "e1", "e4"}
  ELSE IF o.n = "field-filename" THEN {"f"}
  ELSE IF o.n = "resize-extra" THEN {"0", "3", "256"}
  ELSE IF o.n = "upsample-classifications" THEN {"b.spoc"}
  ELSE IF o.n \in Axes({"add"}) THEN {"3", "-2"}
  ELSE IF o.n \in Axes({"scale"}) THEN {"2", "-1"}
  ELSE IF o.n \in Axes({"rotate"}) THEN {"90", "-180"}
  ELSE IF o.n = "copy-field" THEN {"c,p", "e0,i"}
  ELSE IF o.n = "set" THEN {"c,9", "x,-4", "e0,77"}
  ELSE IF o.n = "replace" THEN {"c,1,70000", "e1,0,5"}
  ELSE IF o.n = "replace-not" THEN {"c,1,9", "e0,0,1,3"}
  ELSE {"2"}                                                     \* noise
IsNoise(o) == o.n \notin {"quantize-xyz"} /\ \E k \in 1..Len(o.n) : StartsWith("noise", From(o.n, k))
(* the same and other values in other notations *)
More(o) ==
  IF o.n \in {"keep-class", "remove-class"} THEN {"002", "70000"}
  ELSE IF o.n = "random-seed" THEN {"007"}
  ELSE IF o.n \in {"subsample", "resolution", "tile-size", "tile-size-x", "tile-size-y", "quantize-xyz"} THEN {"2.0", "1.", ".5", "1.50", "2e0", "30e-1", ".1e1"}
  ELSE IF o.n = "remove-coords" THEN {"x > .5", "z < -2.5", "y > -.5", "y < 1e0", "z > 0", "x < -1."}
  ELSE IF o.n = "point-id" THEN {"7", "0012"}
  ELSE IF o.n = "digits" THEN {"03"}
  ELSE IF o.n = "resize-extra" THEN {"2", "01"}
  ELSE IF o.n \in Axes({"add"}) THEN {"-.5", ".5", "1.5", "-2.0", "5.", "1e1", "-5e-1", ".2e1", "-0", "0"}
  ELSE IF o.n \in Axes({"scale"}) THEN {"2.0", "-1.", ".2e1", "30e-1", "0", "-2"}
  ELSE IF o.n \in Axes({"rotate"}) THEN {"90.0", "9e1", "-.9e2", "-90", "270", "360"}
  ELSE IF o.n = "set" THEN {"x,-.5", "y,.5", "z,25e-1", "i,0", "r,007"}
  ELSE IF o.n = "replace" THEN {"c,01,5"}
  ELSE IF o.n = "replace-not" THEN {"c,01,09"}
  ELSE IF IsNoise(o) THEN {".5", "1e0"}
  ELSE {}
Values(o) == Few(o) \cup (IF Spellings = "all" THEN More(o) ELSE {})
IsCommand(o) == app = "transform" /\ o.n \notin {"help", "verbose", "version", "random-seed"}

InputNames == {"a.spoc", "z.zpoc", "gone", "-"}
DashNames == {"-m", "--help", "-v"}
NamesHere == IF app \in {"compress", "decompress", "filter", "transform", "tool"} /\ Len(names) = 1 THEN {"o", "-"}
             ELSE IF app = "srs" /\ Len(names) = 1 /\ (\E k \in 1..Len(want) : want[k][1] = "srs") THEN {"o"}
             ELSE IF app \in {"merge", "info", "diff", "srs"} THEN InputNames \cup {"b.spoc"} ELSE InputNames

Stopped == want # << >> /\ want[Len(want)][1] = "help"
Has_(w) == \E k \in 1..Len(want) : want[k][1] = w
Abbreviations(o) ==
  LET all == {SubSeq(o.n, 1, k) : k \in 1..Len(o.n)}
      fit == {p \in all : Candidates(Table, p) = {o}}
  IN IF Spellings = "all" THEN fit ELSE {o.n, CHOOSE p \in fit : \A q \in fit : Len(p) <= Len(q)}
Ambiguous == {p \in UNION {{SubSeq(o.n, 1, k) : k \in 1..Len(o.n)} : o \in Table} : Cardinality(Candidates(Table, p)) > 1}

Init ==
  /\ app \in Who /\ argv = << >> /\ want = << >> /\ names = << >> /\ turn = "pick" /\ cur = << >> /\ open = FALSE /\ kind = "ok" /\ n = 0

(* what to type next; only names follow "--" *)
Pick ==
  /\ turn = "pick"
  /\ turn' \in (IF n < Longest THEN {"name", "enddash"} \cup (IF ~ Has_("version") /\ kind = "ok" THEN {"mistake"} ELSE {}) \cup {"option"} ELSE {}) \cup (IF n > 0 THEN {"finish"} ELSE {})
  /\ UNCHANGED <<app, argv, want, names, cur, open, kind, n>>
PickDashed ==
  /\ turn = "dashed"
  /\ \/ /\ n < Longest
        /\ \E w \in NamesHere \cup (IF Len(names) = 0 /\ app \in {"filter", "info"} THEN DashNames ELSE {}) :
             argv' = Append(argv, w) /\ names' = IF Stopped THEN names ELSE Append(names, w)
        /\ n' = n + 1 /\ turn' = turn
     \/ turn' = "finish" /\ UNCHANGED <<argv, names, n>>
  /\ UNCHANGED <<app, want, cur, open, kind>>

PickOption ==
  /\ turn = "option"
  /\ \E o \in Table :
       /\ kind = "bad" => o.n # "version"
       /\ (IsNoise(o) /\ IsCommand(o)) => \A k \in 1..Len(want) : want[k][1] \in {"verbose", "random-seed", "version", "help"}
       /\ IsCommand(o) => \A k \in 1..Len(want) : ~ IsNoise([n |-> want[k][1]])
       /\ \E v \in (IF o.a THEN Values(o) ELSE {""}) : cur' = <<o, v>>
  /\ turn' = "spell"
  /\ UNCHANGED <<app, argv, want, names, open, kind, n>>

Typed(words, isopen) ==
  /\ argv' = argv \o words /\ open' = isopen
Means ==
  /\ want' = IF Stopped THEN want ELSE Append(want, <<cur[1].n, cur[2]>>)
  /\ turn' = "pick" /\ n' = n + 1 /\ cur' = << >>
  /\ UNCHANGED <<app, names, kind>>

Long ==
  /\ turn = "spell"
  /\ \E p \in Abbreviations(cur[1]) :
       IF cur[1].a THEN Typed(<<"--" \o p \o "=" \o cur[2]>>, FALSE) \/ Typed(<<"--" \o p, cur[2]>>, FALSE)
       ELSE Typed(<<"--" \o p>>, FALSE)
  /\ Means
Letter ==
  /\ turn = "spell" /\ cur[1].s # ""
  /\ IF cur[1].a THEN Typed(<<"-" \o cur[1].s \o cur[2]>>, FALSE) \/ Typed(<<"-" \o cur[1].s, cur[2]>>, FALSE)
     ELSE Typed(<<"-" \o cur[1].s>>, TRUE)
  /\ Means
Grouped ==     \* appended to a group of letters
  /\ turn = "spell" /\ cur[1].s # "" /\ open
  /\ LET group == argv[Len(argv)] \o cur[1].s
         before == SubSeq(argv, 1, Len(argv) - 1)
     IN IF cur[1].a THEN (argv' = before \o <<group \o cur[2]>> \/ argv' = before \o <<group, cur[2]>>) /\ open' = FALSE
        ELSE argv' = before \o <<group>> /\ open' = TRUE
  /\ Means

Name ==
  /\ turn = "name"
  /\ \E w \in NamesHere : argv' = Append(argv, w) /\ names' = IF Stopped THEN names ELSE Append(names, w)
  /\ turn' = "pick" /\ n' = n + 1 /\ open' = FALSE
  /\ UNCHANGED <<app, want, cur, kind>>
EndDash ==
  /\ turn = "enddash"
  /\ argv' = Append(argv, "--") /\ turn' = "dashed" /\ open' = FALSE
  /\ UNCHANGED <<app, want, names, cur, kind, n>>

Mistake ==
  /\ turn = "mistake" /\ kind = "ok"
  /\ \/ /\ \E w \in {"--bogus", "-Z", "--bogus=1", "--", "---"} \ {"--"} : argv' = Append(argv, w)
        /\ turn' = "pick"
     \/ /\ \E p \in Ambiguous : argv' = Append(argv, "--" \o p)
        /\ turn' = "pick"
     \/ /\ \E o \in Table : ~ o.a /\ argv' = Append(argv, "--" \o o.n \o "=1")
        /\ turn' = "pick"
     \/ /\ open /\ argv' = SubSeq(argv, 1, Len(argv) - 1) \o <<argv[Len(argv)] \o "Z">>
        /\ turn' = "pick"
     \/ /\ \E o \in Table : o.a /\ \/ argv' = Append(argv, "--" \o o.n)
                                   \/ o.s # "" /\ argv' = Append(argv, "-" \o o.s)
        /\ turn' = "finish"
  /\ kind' = IF Stopped THEN "ok" ELSE "bad"
  /\ open' = FALSE /\ n' = n + 1
  /\ UNCHANGED <<app, want, names, cur>>

Next == Pick \/ PickDashed \/ PickOption \/ Long \/ Letter \/ Grouped \/ Name \/ EndDash \/ Mistake
Spec == Init /\ [][Next]_vars

Understood ==
  LET p == Parse(app, argv)
  IN turn \in {"pick", "dashed", "finish"} =>
       IF kind = "bad" THEN ~ p.ok
       ELSE p = [ok |-> TRUE, opts |-> want, pos |-> names]

(* the meaning of a line depends on what was meant only, not on its spelling *)
Canonical == FoldLeft(LAMBDA x, y : x \o y, << >>, [k \in 1..Len(want) |-> LET o == CHOOSE o \in Table : o.n = want[k][1]
                                                     IN IF o.a THEN <<"--" \o o.n \o "=" \o want[k][2]>> ELSE <<"--" \o o.n>>])
             \o (IF Stopped THEN << >> ELSE <<"--">> \o names)
Hex == [w \in {"text", "-h", "=a=b"} |-> w]
Meant == turn = "finish" /\ kind = "ok" => OpOf(<< >>, app, argv, "in", Hex) = OpOf(<< >>, app, Canonical, "in", Hex)

---------------------------------------------------------------------------
(* random lines, one line of JSON each. A plan says how many names and       *)
(* options are still to be typed, whether the line makes sense, whether it   *)
(* has mistakes, asks for help, repeats options                              *)
VARIABLE plan
gvars == <<vars, plan>>

GenInit == Init /\ plan = << >>
GenPlan ==
  /\ plan = << >>
  /\ plan' = [names |-> RandomElement(IF app = "merge" THEN {2, 3} ELSE IF app = "diff" THEN {2} ELSE IF app = "tile" THEN {0, 1} ELSE {0, 1, 2}),
             opts |-> RandomElement(0..Longest), sane |-> RandomElement(1..6) # 1, mistake |-> RandomElement(1..8) = 1,
             meta |-> RandomElement(1..8) = 1, again |-> RandomElement(1..3) = 1, dash |-> RandomElement(1..4) = 1]
  /\ UNCHANGED vars

Used == {want[k][1] : k \in 1..Len(want)}
Sensible(o) ==
  /\ o.n \in {"help", "version"} => plan.meta
  /\ plan.sane =>
       /\ app = "tool" => /\ o.n \in ToolCommands => Used \cap ToolCommands = {}
                          /\ "set-field" \in Used /\ "field-filename" \notin Used => o.n = "field-filename"
                          /\ "upsample-classifications" \in Used /\ "resolution" \notin Used => o.n = "resolution"
       /\ app = "tile" => /\ o.n = "tile-size" => Used \cap {"tile-size-x", "tile-size-y"} = {}
                          /\ o.n \in {"tile-size-x", "tile-size-y"} => "tile-size" \notin Used
       /\ app = "diff" => (o.n \in {"header-only", "data-only", "field"} => Used \cap {"header-only", "data-only", "field"} \subseteq {o.n})
       /\ (plan.again /\ Used \ ({"help", "version", "verbose"} \cup ToolCommands) # {} /\ ~ (app = "tool" /\ Used \cap ToolCommands # {})) => o.n \in Used
Unfinished ==     \* a line that makes sense has a command
  plan.sane /\ \/ app = "tool" /\ Used \cap ToolCommands = {}
               \/ app = "tool" /\ "set-field" \in Used /\ "field-filename" \notin Used
               \/ app = "tool" /\ "upsample-classifications" \in Used /\ "resolution" \notin Used
               \/ app = "transform" /\ Used \ {"help", "verbose", "version", "random-seed"} = {}

GenPick ==
  /\ turn = "pick" /\ plan # << >>
  /\ LET moreopts == plan.opts > 0 \/ Unfinished
         todo == (IF plan.names > 0 THEN {"name"} ELSE {}) \cup (IF moreopts THEN {"option"} ELSE {})
                 \cup (IF plan.mistake /\ ~ Has_("version") THEN {"mistake"} ELSE {})
                 \cup (IF plan.dash /\ ~ moreopts THEN {"enddash"} ELSE {})
     IN turn' = IF todo = {} THEN "finish" ELSE RandomElement(todo)
  /\ plan' = [plan EXCEPT !.names = IF turn' = "name" THEN @ - 1 ELSE @, !.opts = IF turn' = "option" /\ @ > 0 THEN @ - 1 ELSE @,
                          !.mistake = IF turn' = "mistake" THEN FALSE ELSE @]
  /\ UNCHANGED <<app, argv, want, names, cur, open, kind, n>>
GenDashed ==
  /\ turn = "dashed"
  /\ IF plan.names = 0 THEN turn' = "finish" /\ UNCHANGED <<argv, names, n, plan>>
     ELSE \E w \in {RandomElement(NamesHere \cup (IF Len(names) = 0 /\ app \in {"filter", "info", "compress"} THEN DashNames ELSE {}))} :
            /\ argv' = Append(argv, w) /\ names' = (IF Stopped THEN names ELSE Append(names, w)) /\ n' = n + 1 /\ turn' = turn
            /\ plan' = [plan EXCEPT !.names = @ - 1]
  /\ UNCHANGED <<app, want, cur, open, kind>>
GenOption ==
  /\ turn = "option"
  /\ LET all == {o \in Table : /\ Sensible(o) /\ (kind = "bad" => o.n # "version")
                               /\ (IsNoise(o) /\ IsCommand(o)) => Used \subseteq {"verbose", "random-seed", "version", "help"}
                               /\ IsCommand(o) => \A u \in Used : ~ IsNoise([n |-> u])
                               /\ o.n = "quantize-xyz" => Used \cap Axes({"rotate"}) = {}}     \* rounding errors across a boundary
     IN IF all = {} THEN turn' = "pick" /\ UNCHANGED cur
        ELSE /\ \E o \in {RandomElement(all)} : cur' = <<o, IF o.a THEN RandomElement(Values(o)) ELSE "">>
             /\ turn' = "spell"
  /\ plan' = IF turn' = "pick" THEN [plan EXCEPT !.opts = 0, !.sane = FALSE] ELSE plan
  /\ UNCHANGED <<app, argv, want, names, open, kind, n>>
GenFinish ==
  /\ turn = "finish"
  /\ PrintT("BEHAVIOUR " \o ToJson([app |-> app, argv |-> argv, op |-> OpOf(<< >>, app, argv, "in", Hex)]))
  /\ turn' = "over" /\ UNCHANGED <<app, argv, want, names, cur, open, kind, n, plan>>
GenNext == \/ GenPlan \/ GenPick \/ GenDashed \/ GenOption \/ GenFinish
           \/ (Long \/ Letter \/ Grouped \/ Name \/ EndDash \/ Mistake) /\ UNCHANGED plan
GenSpec == GenInit /\ [][GenNext]_gvars
Fixed == plan = 0 /\ Init
FixedSpec == Fixed /\ [][Next /\ UNCHANGED plan]_gvars
=============================================================================
