------------------------------ MODULE MCStream ------------------------------
(* A producer, a pipeline of filters and a consumer over bounded pipes.     *)
(* Units travel in two parts. Unit 0 is the header, which states the number *)
(* of records. Lag is the number of units a filter keeps back until later   *)
(* ones arrive: with 0, which SPOC promises, every unit is delivered before *)
(* the next is needed; with more, the checks must fail.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Filters, Total, Cap, Lag, Faults

VARIABLES sent,      \* number of parts the producer has sent
          prod,      \* "on", "closed" (ended or died)
          pipe,      \* pipe[k]: parts on the way into filter k (Filters + 1: to the consumer)
          shut,      \* shut[k]: the writer of pipe k is gone
          buf,       \* parts read and kept, per filter
          out,       \* parts left to write, per filter
          count,     \* parts passed on, per filter
          st,        \* "run", "ok", "fail" per filter
          got,       \* parts the consumer has
          cons       \* "on", "gone"
vars == <<sent, prod, pipe, shut, buf, out, count, st, got, cons>>
F == 1..Filters
AllParts == 2 * (Total + 1)

Init ==
  /\ sent = 0 /\ prod = "on"
  /\ pipe = [k \in 1..(Filters + 1) |-> << >>]
  /\ shut = [k \in 1..(Filters + 1) |-> FALSE]
  /\ buf = [k \in F |-> << >>] /\ out = [k \in F |-> << >>] /\ count = [k \in F |-> 0]
  /\ st = [k \in F |-> "run"] /\ got = << >> /\ cons = "on"

Reading(k) == IF k = Filters + 1 THEN cons = "on" ELSE st[k] = "run"
Send ==
  /\ prod = "on" /\ sent < AllParts /\ Reading(1) /\ Len(pipe[1]) < Cap
  /\ pipe' = [pipe EXCEPT ![1] = Append(@, <<sent \div 2, sent % 2, 0>>)]
  /\ sent' = sent + 1
  /\ UNCHANGED <<prod, shut, buf, out, count, st, got, cons>>
Close ==
  /\ prod = "on" /\ (Faults \/ sent = AllParts)
  /\ prod' = "closed" /\ shut' = [shut EXCEPT ![1] = TRUE]
  /\ UNCHANGED <<sent, pipe, buf, out, count, st, got, cons>>
(* nobody reads: the producer is stopped *)
Refused ==
  /\ prod = "on" /\ sent < AllParts /\ ~ Reading(1)
  /\ prod' = "closed" /\ shut' = [shut EXCEPT ![1] = TRUE]
  /\ UNCHANGED <<sent, pipe, buf, out, count, st, got, cons>>
Take(k) ==
  /\ st[k] = "run" /\ out[k] = << >> /\ pipe[k] # << >>
  /\ LET u == Head(pipe[k])
         b == Append(buf[k], u)
         ready == u[2] = 1 /\ (Len(b) >= 2 * (Lag + 1) \/ u[1] = Total)
     IN /\ buf' = [buf EXCEPT ![k] = IF ready THEN << >> ELSE b]
        /\ out' = [out EXCEPT ![k] = IF ready THEN [n \in 1..Len(b) |-> <<b[n][1], b[n][2], b[n][3] + 1>>] ELSE << >>]
  /\ pipe' = [pipe EXCEPT ![k] = Tail(@)]
  /\ UNCHANGED <<sent, prod, shut, count, st, got, cons>>
Emit(k) ==
  /\ st[k] = "run" /\ out[k] # << >>
  /\ IF Reading(k + 1)
     THEN /\ Len(pipe[k + 1]) < Cap
          /\ pipe' = [pipe EXCEPT ![k + 1] = Append(@, Head(out[k]))]
          /\ out' = [out EXCEPT ![k] = Tail(@)]
          /\ count' = [count EXCEPT ![k] = @ + 1]
          /\ UNCHANGED <<st, shut>>
     ELSE /\ st' = [st EXCEPT ![k] = "fail"]
          /\ shut' = [shut EXCEPT ![k + 1] = TRUE]
          /\ UNCHANGED <<pipe, out, count>>
  /\ UNCHANGED <<sent, prod, buf, got, cons>>
(* everything was passed on, or the input ended too early *)
End(k) ==
  /\ st[k] = "run" /\ out[k] = << >>
  /\ \/ count[k] = AllParts /\ st' = [st EXCEPT ![k] = "ok"]
     \/ count[k] < AllParts /\ pipe[k] = << >> /\ shut[k] /\ st' = [st EXCEPT ![k] = "fail"]
  /\ shut' = [shut EXCEPT ![k + 1] = TRUE]
  /\ UNCHANGED <<sent, prod, pipe, buf, out, count, got, cons>>
Kill(k) ==
  /\ Faults /\ st[k] = "run" /\ st' = [st EXCEPT ![k] = "fail"]
  /\ shut' = [shut EXCEPT ![k + 1] = TRUE]
  /\ UNCHANGED <<sent, prod, pipe, buf, out, count, got, cons>>
Consume ==
  /\ cons = "on" /\ pipe[Filters + 1] # << >>
  /\ got' = Append(got, Head(pipe[Filters + 1]))
  /\ pipe' = [pipe EXCEPT ![Filters + 1] = Tail(@)]
  /\ UNCHANGED <<sent, prod, shut, buf, out, count, st, cons>>
Leave ==
  /\ Faults /\ cons = "on" /\ cons' = "gone"
  /\ UNCHANGED <<sent, prod, pipe, shut, buf, out, count, st, got>>

Work == Consume \/ Refused \/ \E k \in F : Take(k) \/ Emit(k) \/ End(k)
Next == Send \/ Close \/ Leave \/ Work \/ \E k \in F : Kill(k)
Fair == /\ WF_vars(Consume) /\ WF_vars(Refused) /\ \A k \in F : WF_vars(Take(k)) /\ WF_vars(Emit(k)) /\ WF_vars(End(k))
Spec == Init /\ [][Next]_vars /\ Fair
(* a producer that goes on to the end *)
Live == Spec /\ WF_vars(Send) /\ WF_vars(Close)

---------------------------------------------------------------------------
(* every part at most once, in order, changed by every filter *)
Exact == \A n \in 1..Len(got) : got[n] = <<(n - 1) \div 2, (n - 1) % 2, Filters>>
(* when nothing can move but the producer, every complete unit has arrived *)
Prompt == (~ ENABLED Work /\ cons = "on" /\ \A k \in F : st[k] # "fail") => Len(got) >= 2 * (sent \div 2)
(* success means that everything came through *)
NoFalseSuccess == \A k \in F : st[k] = "ok" => count[k] = AllParts
AllWell == (\A k \in F : st[k] = "ok") /\ cons = "on" /\ pipe[Filters + 1] = << >> => Len(got) = AllParts
CleanEnd == (prod = "closed" /\ sent < AllParts) => [] (st[1] # "ok")
Ended == \A k \in F : st[k] # "run"
EndsWithInput == (prod = "closed") ~> Ended
Complete == <>(Ended /\ prod = "closed")
AllArrives == (~ Faults) => <>(Len(got) = AllParts)

---------------------------------------------------------------------------
(* scripts for the environment of real pipelines: numbers of parts sent     *)
(* without waiting, and how it ends *)
CONSTANTS Steps
RECURSIVE Ways(_)
Ways(n) == {<< >>} \cup (IF n = 0 THEN {} ELSE UNION {{<<k>> \o w : w \in Ways(n - k)} : k \in {j \in Steps : j <= n}})
SumOf(w) == FoldLeft(LAMBDA a, b : a + b, 0, w)
Scripts == {[w |-> w, e |-> e] : w \in Ways(AllParts), e \in {"close", "gone", "kill"}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scripts : s.e = "close" \/ SumOf(s.w) < AllParts}))
=============================================================================
