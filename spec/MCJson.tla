------------------------------- MODULE MCJson -------------------------------
(* Values grow by actions; the reader takes their notation back to them, and *)
(* nothing that was cut short, lost or repeats a token is taken for it.      *)
EXTENDS SpocJson, TLC

CONSTANTS Size

VARIABLES v, size
vars == <<v, size>>
Leaf == {NumV("1"), StrV("1"), StrV("k"), LogV("true")}
Keys == {"1", "k"}

Init == v \in Leaf \cup {ArrV(<< >>), ObjV({})} /\ size = 1
Wrap == v' = ArrV(<<v>>) \/ \E k \in Keys : v' = ObjV({<<k, v>>})
Extend ==
  \/ v.k = "arr" /\ \E x \in Leaf : v' = ArrV(Append(v.v, x)) \/ v' = ArrV(<<x>> \o v.v)
  \/ v.k = "obj" /\ \E x \in Leaf, k \in Keys : (\A y \in v.m : y[1] # k) /\ v' = ObjV(v.m \cup {<<k, x>>})
Next == size < Size /\ (Wrap \/ Extend) /\ size' = size + 1
Spec == Init /\ [][Next]_vars

W == Written(v)
Understood == IsNotationOf(W, v)
Whole == \A n \in 0..(Len(W) - 1) : ~ LET a == Read(SubSeq(W, 1, n)) IN a.ok /\ a.st = << >> /\ a.out # << >>
Exact == \A n \in 1..Len(W) :
  /\ ~ IsNotationOf(SubSeq(W, 1, n - 1) \o SubSeq(W, n + 1, Len(W)), v)
  /\ ~ IsNotationOf(SubSeq(W, 1, n) \o SubSeq(W, n, Len(W)), v)
=============================================================================
