------------------------------ MODULE MCRadius ------------------------------
(* All clouds of N candidates and one query on a small lattice, any choice   *)
(* of cell at every draw.                                                    *)
EXTENDS SpocRadius, TLC, Json, IOUtils

CONSTANTS MaxX, MaxY, N, R2, Res, MaxLimit

Lattice == (0..MaxX) \X (0..MaxY)
Key(p) == p[1] * (MaxY + 1) + p[2]
Clouds == {c \in [1..N -> Lattice] : \A k \in 1..(N - 1) : Key(c[k]) <= Key(c[k + 1])}

VARIABLES c, q, limit, left, out, drawn
vars == <<c, q, limit, left, out, drawn>>

CellOf(j) == Cell(c[j], Res)
Cells == {CellOf(j) : j \in 1..N}
Members(x) == {j \in 1..N : CellOf(j) = x}

Init ==
  /\ c \in Clouds /\ q \in Lattice /\ limit \in 0..MaxLimit
  /\ left = [x \in {Cell(c[j], Res) : j \in 1..N} |->
               IF Near(x, Cell(q, Res)) THEN Cardinality({j \in 1..N : Cell(c[j], Res) = x}) ELSE 0]
  /\ out = << >> /\ drawn = {}

(* the n-th member of a cell *)
Nth(x, n) == CHOOSE j \in Members(x) : Cardinality({i \in Members(x) : i <= j}) = n
In(j) == Within(q, c[j], R2, MaxX + MaxY)

Draw ==
  /\ Len(out) < limit
  /\ \E x \in DOMAIN left :
       /\ left[x] > 0
       /\ LET j == Nth(x, left[x])
          IN /\ out' = IF In(j) THEN Append(out, j) ELSE out
             /\ drawn' = drawn \cup {j}
       /\ left' = [left EXCEPT ![x] = @ - 1]
  /\ UNCHANGED <<c, q, limit>>
Next == Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == Len(out) >= limit \/ \A x \in DOMAIN left : left[x] = 0
All == {j \in 1..N : In(j)}
Right == Finished => RightList(out, All, All, limit) /\ Len(out) = Min(limit, Cardinality(All))
Partial == Cardinality({out[k] : k \in 1..Len(out)}) = Len(out) /\ {out[k] : k \in 1..Len(out)} \subseteq All \cap drawn
Ends == <>Finished

---------------------------------------------------------------------------
(* the clouds for exhaustive conformance runs *)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, LET RECURSIVE seq(_)
                                  seq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<[p |-> x]>> \o seq(S \ {x})
                              IN seq(Clouds))
=============================================================================
