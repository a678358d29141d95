------------------------------ MODULE SpocJson ------------------------------
(* The notation of reports. A value is a number [k, s], a string, a logical  *)
(* value, an array [k, v] or an object [k, m] with a set of members. The     *)
(* reader is an automaton over tokens [t, s] with a stack of open values.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NumV(s) == [k |-> "num", s |-> s]
StrV(s) == [k |-> "str", s |-> s]
LogV(s) == [k |-> "log", s |-> s]
ArrV(v) == [k |-> "arr", v |-> v]
ObjV(m) == [k |-> "obj", m |-> m]

Tok(c) == [t |-> c, s |-> ""]
Mark == {"[", "]", "{", "}", ",", ":"}

(* the automaton: stack of frames, the values read so far, ok *)
Start == [st |-> << >>, out |-> << >>, ok |-> TRUE]
Wrong == [st |-> << >>, out |-> << >>, ok |-> FALSE]
Top(a) == a.st[Len(a.st)]
SetTop(a, f) == [a EXCEPT !.st[Len(a.st)] = f]
Open(a, f) == [a EXCEPT !.st = Append(@, f)]
Close(a) == [a EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]

(* a whole value has been read: it goes into what is open *)
Put(a, v) ==
  IF a.st = << >> THEN (IF a.out = << >> THEN [a EXCEPT !.out = <<v>>] ELSE Wrong)
  ELSE LET f == Top(a)
       IN IF f.k = "arr" /\ f.want \in {"first", "value"} THEN SetTop(a, [f EXCEPT !.v = Append(@, v), !.want = "next"])
          ELSE IF f.k = "obj" /\ f.want = "value" THEN SetTop(a, [f EXCEPT !.m = @ \cup {<<f.key, v>>}, !.want = "next"])
          ELSE Wrong
MayOpen(a) == IF a.st = << >> THEN a.out = << >> ELSE Top(a).want = "value" \/ (Top(a).k = "arr" /\ Top(a).want = "first")

Step(a, x) ==
  IF ~ a.ok THEN a
  ELSE IF x.t = "[" THEN (IF MayOpen(a) THEN Open(a, [k |-> "arr", v |-> << >>, want |-> "first"]) ELSE Wrong)
  ELSE IF x.t = "{" THEN (IF MayOpen(a) THEN Open(a, [k |-> "obj", m |-> {}, key |-> "", want |-> "first"]) ELSE Wrong)
  ELSE IF x.t \in {"num", "log"} THEN Put(a, [k |-> x.t, s |-> x.s])
  ELSE IF x.t = "str" /\ (a.st = << >> \/ Top(a).k = "arr" \/ Top(a).want = "value") THEN Put(a, StrV(x.s))
  ELSE IF a.st = << >> THEN Wrong
  ELSE LET f == Top(a)
       IN IF x.t = "str" THEN
            (IF f.want \in {"first", "key"} /\ \A y \in f.m : y[1] # x.s THEN SetTop(a, [f EXCEPT !.key = x.s, !.want = "colon"]) ELSE Wrong)
          ELSE IF x.t = ":" THEN (IF f.want = "colon" THEN SetTop(a, [f EXCEPT !.want = "value"]) ELSE Wrong)
          ELSE IF x.t = "," THEN (IF f.want = "next" THEN SetTop(a, [f EXCEPT !.want = IF f.k = "arr" THEN "value" ELSE "key"]) ELSE Wrong)
          ELSE IF x.t = "]" THEN (IF f.k = "arr" /\ f.want \in {"first", "next"} THEN Put(Close(a), ArrV(f.v)) ELSE Wrong)
          ELSE IF x.t = "}" THEN (IF f.k = "obj" /\ f.want \in {"first", "next"} THEN Put(Close(a), ObjV(f.m)) ELSE Wrong)
          ELSE Wrong

Read(toks) == FoldLeft(Step, Start, toks)
IsNotationOf(toks, v) == LET a == Read(toks) IN a.ok /\ a.st = << >> /\ a.out = <<v>>

---------------------------------------------------------------------------
(* a writer: members in some order *)
RECURSIVE Written(_)
Written(v) ==
  LET joined(parts) == IF parts = << >> THEN << >> ELSE FoldLeft(LAMBDA x, y : x \o <<Tok(",")>> \o y, parts[1], Tail(parts))
  IN IF v.k = "arr" THEN <<Tok("[")>> \o joined([n \in 1..Len(v.v) |-> Written(v.v[n])]) \o <<Tok("]")>>
     ELSE IF v.k = "obj" THEN LET ms == SetToSeq(v.m)
                              IN <<Tok("{")>> \o joined([n \in 1..Len(ms) |-> <<[t |-> "str", s |-> ms[n][1]], Tok(":")>> \o Written(ms[n][2])]) \o <<Tok("}")>>
     ELSE <<[t |-> v.k, s |-> v.s]>>

(* values as they come in a recording: members as a sequence *)
RECURSIVE Value(_)
Value(j) ==
  IF j.k = "arr" THEN ArrV([n \in 1..Len(j.v) |-> Value(j.v[n])])
  ELSE IF j.k = "obj" THEN ObjV({<<j.m[n][1], Value(j.m[n][2])>> : n \in 1..Len(j.m)})
  ELSE [k |-> j.k, s |-> j.s]
=============================================================================
