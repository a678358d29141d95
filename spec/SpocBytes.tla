------------------------------ MODULE SpocBytes ------------------------------
(* The file format, byte by byte, and the reader as an automaton over a      *)
(* byte stream. Clouds are [w |-> SRS bytes, c |-> compressed?, E, recs]     *)
(* with records <<x, y, z, c, p, i, r, g, b, extra>> of machine words.       *)
EXTENDS Words, FiniteSets, SequencesExt, TLC

B16(v) == <<v % 256, v \div 256>>
(* little-endian bytes of a word *)
RECURSIVE LE(_)
LE(w) == IF w = << >> THEN << >> ELSE B16(w[Len(w)]) \o LE(SubSeq(w, 1, Len(w) - 1))
LEN(n, limbs) == LE(WOf(n, limbs))
(* the word of n limbs that starts at position k *)
WordAt(b, k, n) == [j \in 1..n |-> b[k + 2 * (n - j)] + 256 * b[k + 2 * (n - j) + 1]]

WIDTHS == <<4, 4, 4, 2, 2, 1, 1, 1, 1>>          \* limbs of the fixed fields
OFFS   == <<0, 8, 16, 24, 28, 32, 34, 36, 38>>   \* their byte offsets
RecSize(E) == 40 + 8 * E

Flat(s) == FoldLeft(LAMBDA a, q : a \o q, << >>, s)
RecBytes(q) == Flat([f \in 1..9 |-> LE(q[f])]) \o Flat([j \in 1..Len(q[10]) |-> LE(q[10][j])])
RecAt(b, k, E) ==
  [f \in 1..9 |-> WordAt(b, k + OFFS[f], WIDTHS[f])] \o <<[j \in 1..E |-> WordAt(b, k + 40 + 8 * (j - 1), 4)]>>

SIG == <<83, 80, 79, 67>>
VERSION == <<0, 1>>
HeaderBytes(cl) ==
  SIG \o VERSION \o LEN(Len(cl.w), 1) \o cl.w \o <<cl.E>> \o LEN(Len(cl.recs), 4) \o <<IF cl.c THEN 1 ELSE 0>>
HeaderSize(w) == 18 + Len(w)

NCols(E) == 9 + E
ColWidth(j) == IF j <= 9 THEN WIDTHS[j] ELSE 4
ColWords(recs, j) == [n \in 1..Len(recs) |-> IF j <= 9 THEN recs[n][j] ELSE recs[n][10][j - 9]]
ColBytes(recs, j) == Flat([n \in 1..Len(recs) |-> LE(ColWords(recs, j)[n])])
AllZero(s) == \A n \in 1..Len(s) : s[n] = 0

Representable(cl) ==
  /\ Len(cl.w) <= 65535 /\ cl.E <= 255
  /\ \A n \in 1..Len(cl.recs) : Len(cl.recs[n][10]) = cl.E

Plain(cl) == HeaderBytes(cl) \o Flat([n \in 1..Len(cl.recs) |-> RecBytes(cl.recs[n])])

(* The compressor is uninterpreted: inf is what the blobs stand for, a       *)
(* sequence of [blob, ok, raw, soft]; soft marks a blob that holds the right *)
(* values but is not a well-formed stream (either verdict is tolerated).     *)
Inflate(inf, blob) ==
  LET hit == {k \in 1..Len(inf) : inf[k].blob = blob}
  IN IF hit = {} THEN Assert(FALSE, <<"unknown blob", blob>>) ELSE inf[CHOOSE k \in hit : TRUE]

---------------------------------------------------------------------------
(* The reader. State r: phase, position of the next byte, what was read.     *)
(* Needs(r) bytes have to be there before the next step can be taken.        *)
ReadInit(at) == [ph |-> "sig", at |-> at, w |-> << >>, E |-> 0, n |-> 0, flag |-> 0,
                 len |-> 0, recs |-> << >>, cols |-> << >>, soft |-> FALSE]

Needs(r) ==
  CASE r.ph = "sig"  -> 4
    [] r.ph = "ver"  -> 2
    [] r.ph = "wlen" -> 2
    [] r.ph = "wkt"  -> r.len
    [] r.ph = "E"    -> 1
    [] r.ph = "n"    -> 8
    [] r.ph = "flag" -> 1
    [] r.ph = "rec"  -> RecSize(r.E)
    [] r.ph = "clen" -> 8
    [] r.ph = "blob" -> r.len
    [] OTHER -> 0
Final(r) == r.ph \in {"done", "reject"}

Rejected(r) == [r EXCEPT !.ph = "reject"]
(* values a zero-length column stands for are not spelled out *)
Missing == [zero |-> TRUE, v |-> << >>]
Column(v) == [zero |-> FALSE, v |-> v]
ColOf(raw, j, n) == [k \in 1..n |-> WordAt(raw, 1 + 2 * ColWidth(j) * (k - 1), ColWidth(j))]
Cell(r, j, k) == IF r.cols[j].zero THEN Zero(ColWidth(j)) ELSE r.cols[j].v[k]
Assembled(r) ==
  [k \in 1..r.n |-> [j \in 1..9 |-> Cell(r, j, k)] \o <<[j \in 1..r.E |-> Cell(r, 9 + j, k)]>>]

Small(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] < 8192     \* fits a TLC integer

(* after the header, and after each record or column *)
Next1(r, mode) ==
  CASE mode = "hdr" -> [r EXCEPT !.ph = "done"]
    [] r.flag = 0 /\ mode \in {"auto", "unc", "rec"} -> [r EXCEPT !.ph = IF Len(r.recs) = r.n THEN "done" ELSE "rec"]
    [] r.flag # 0 /\ mode \in {"auto", "comp"} ->
         IF Len(r.cols) = NCols(r.E) THEN [r EXCEPT !.ph = "done", !.recs = Assembled(r)] ELSE [r EXCEPT !.ph = "clen"]
    [] OTHER -> Rejected(r)

(* one step of the reader, given that the bytes it needs are in b *)
ReadStep(r, b, inf, mode) ==
  LET k == r.at
      s == [r EXCEPT !.at = k + Needs(r)]
  IN CASE r.ph = "sig"  -> IF SubSeq(b, k, k + 3) = SIG THEN [s EXCEPT !.ph = "ver"] ELSE Rejected(r)
       [] r.ph = "ver"  -> IF SubSeq(b, k, k + 1) = VERSION THEN [s EXCEPT !.ph = "wlen"] ELSE Rejected(r)
       [] r.ph = "wlen" -> [s EXCEPT !.ph = "wkt", !.len = b[k] + 256 * b[k + 1]]
       [] r.ph = "wkt"  -> [s EXCEPT !.ph = "E", !.w = SubSeq(b, k, k + r.len - 1)]
       [] r.ph = "E"    -> [s EXCEPT !.ph = "n", !.E = b[k]]
       [] r.ph = "n"    -> LET w == WordAt(b, k, 4)
                           IN IF Small(w) THEN [s EXCEPT !.ph = "flag", !.n = w[4] + 65536 * w[3]]
                              ELSE IF mode = "hdr" THEN [s EXCEPT !.ph = "flag", !.n = w]
                              ELSE Rejected(r)          \* no input is that long
       [] r.ph = "flag" -> Next1([s EXCEPT !.flag = b[k]], mode)
       [] r.ph = "rec"  -> Next1([s EXCEPT !.recs = Append(@, RecAt(b, k, r.E))], mode)
       [] r.ph = "clen" ->
            LET w == WordAt(b, k, 4)
            IN IF ~ Small(w) THEN Rejected(r)
               ELSE LET len == w[4] + 65536 * w[3]
                    IN IF len = 0 THEN Next1([s EXCEPT !.cols = Append(@, Missing)], mode)
                       ELSE [s EXCEPT !.ph = "blob", !.len = len]
       [] r.ph = "blob" ->
            LET j == Len(r.cols) + 1
                i == Inflate(inf, SubSeq(b, k, k + r.len - 1))
            IN IF i.ok /\ Len(i.raw) = 2 * ColWidth(j) * r.n
               THEN Next1([s EXCEPT !.cols = Append(@, Column(ColOf(i.raw, j, r.n))), !.soft = @ \/ i.soft], mode)
               ELSE Rejected(r)

RECURSIVE Run(_, _, _, _)
Run(r, b, inf, mode) ==
  IF Final(r) THEN r
  ELSE IF r.at + Needs(r) - 1 > Len(b) THEN Rejected(r)      \* the input ends too early
  ELSE Run(ReadStep(r, b, inf, mode), b, inf, mode)

Decode(b, at, inf, mode) == Run(ReadInit(at), b, inf, mode)

---------------------------------------------------------------------------
(* What a writer may deliver                                                *)
FlagOK(cl, mode) == (mode = "unc" => ~ cl.c) /\ (mode = "comp" => cl.c)
(* the columns of b, starting at position k, one by one *)
RECURSIVE ColumnsOK(_, _, _, _, _)
ColumnsOK(cl, b, k, j, inf) ==
  IF j > NCols(cl.E) THEN k = Len(b) + 1
  ELSE IF k + 7 > Len(b) THEN FALSE
  ELSE LET w == WordAt(b, k, 4)  raw == ColBytes(cl.recs, j)
       IN IF ~ Small(w) THEN FALSE
          ELSE LET len == w[4] + 65536 * w[3]
               IN IF len = 0 THEN AllZero(raw) /\ ColumnsOK(cl, b, k + 8, j + 1, inf)
                  ELSE /\ k + 7 + len <= Len(b)
                       /\ ~ AllZero(raw)
                       /\ LET i == Inflate(inf, SubSeq(b, k + 8, k + 7 + len))
                          IN i.ok /\ ~ i.soft /\ i.raw = raw
                       /\ ColumnsOK(cl, b, k + 8 + len, j + 1, inf)
Starts(b, s) == Len(b) >= Len(s) /\ SubSeq(b, 1, Len(s)) = s
WriteOK(cl, mode, b, inf) ==
  CASE mode = "hdr" -> b = HeaderBytes(cl)
    [] mode = "rec" \/ ~ cl.c -> b = Plain(cl)
    [] OTHER -> Starts(b, HeaderBytes(cl)) /\ ColumnsOK(cl, b, HeaderSize(cl.w) + 1, 1, inf)

SameCloud(r, cl) == r.w = cl.w /\ (r.flag # 0) = cl.c /\ r.n = Len(cl.recs) /\ r.recs = cl.recs /\ r.E = cl.E
=============================================================================
