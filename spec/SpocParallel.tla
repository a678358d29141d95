---------------------------- MODULE SpocParallel ----------------------------
(* Parallel regions. A region is a sequence of tasks over a shared memory;  *)
(* a task reads a set of locations, one at a time, and then writes a set of *)
(* locations, one at a time. Workers take the tasks in any order and are    *)
(* interleaved arbitrarily. Values are terms that say which task computed   *)
(* them from which inputs, so equal values mean the same computation.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC


(* Bernstein's conditions: what one task writes no other task touches *)
Independent(reg) ==
  \A a, b \in 1..Len(reg) : a # b => reg[a].w \cap (reg[b].r \cup reg[b].w) = {}

Value(t, loc, got) == <<"by", t, loc, got>>

(* the reference: one task after the other *)
RECURSIVE Sequential(_, _, _)
Sequential(reg, mem, t) ==
  IF t > Len(reg) THEN mem
  ELSE LET got == [x \in reg[t].r |-> mem[x]]
       IN Sequential(reg, [x \in DOMAIN mem |-> IF x \in reg[t].w THEN Value(t, x, got) ELSE mem[x]], t + 1)

(* an execution of a command, as observed: [id, threads, order, race, out]. *)
(* id stands for the command with all its inputs. The first execution is    *)
(* the sequential one, and every other has to deliver what it delivered.    *)
RunPermits(known, e) ==
  /\ ~ e.race
  /\ IF \E k \in known : k.id = e.id
     THEN \A k \in known : k.id = e.id => k.out = e.out
     ELSE e.threads = 1
Learn(known, e) == IF \E k \in known : k.id = e.id THEN known ELSE known \cup {[id |-> e.id, out |-> e.out]}
=============================================================================
