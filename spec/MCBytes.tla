------------------------------- MODULE MCBytes -------------------------------
(* A writer, a channel that delivers bytes in pieces and may close early,    *)
(* and the reader automaton. Two clouds are written one after the other.     *)
EXTENDS SpocBytes

CONSTANTS MaxRecs, Es, Values, Pieces, Modes
Ws == {<< >>, <<65, 0>>}

Wd(v, n) == IF v = 0 THEN Zero(n) ELSE [k \in 1..n |-> IF k = n THEN v ELSE 256 + k]
(* every field of a record from two values: even and odd fields *)
MkRec(a, b, E) == [f \in 1..9 |-> Wd(IF f % 2 = 0 THEN a ELSE b, WIDTHS[f])] \o <<[j \in 1..E |-> Wd(a, 4)]>>
Clouds ==
  UNION {{[w |-> w, c |-> c, E |-> IF n = 0 THEN 0 ELSE E, recs |-> s] :
          w \in Ws, c \in BOOLEAN, s \in [1..n -> {MkRec(a, b, E) : a \in Values, b \in Values}]} : n \in 0..MaxRecs, E \in Es}

(* a toy compressor: a marker byte, the length and the values *)
Blob(raw) == <<120, Len(raw) % 256>> \o raw
Squeezed(cl) == HeaderBytes(cl) \o Flat([j \in 1..NCols(cl.E) |->
    LET raw == ColBytes(cl.recs, j) IN IF AllZero(raw) THEN LEN(0, 4) ELSE LEN(Len(Blob(raw)), 4) \o Blob(raw)])
Bytes(cl) == IF cl.c THEN Squeezed(cl) ELSE Plain(cl)
InfOf(cl) == [j \in 1..NCols(cl.E) |-> [blob |-> Blob(ColBytes(cl.recs, j)), ok |-> TRUE, raw |-> ColBytes(cl.recs, j), soft |-> FALSE]]

VARIABLES cls,      \* the two clouds
          sent,     \* bytes delivered so far
          closed,   \* no more bytes will come
          r,        \* the reader
          got,      \* clouds read
          mode,
          all, inf  \* everything written, and what its blobs stand for
fixed == <<cls, mode, all, inf>>
vars == <<sent, closed, r, got, fixed>>

Init == /\ cls \in {<<a, b>> : a \in Clouds, b \in {CHOOSE q \in Clouds : q.recs # << >> /\ ~ q.c, CHOOSE q \in Clouds : q.recs # << >> /\ q.c}}
        /\ all = Bytes(cls[1]) \o Bytes(cls[2]) /\ inf = InfOf(cls[1]) \o InfOf(cls[2])
        /\ sent = 0 /\ closed = FALSE /\ r = ReadInit(1) /\ got = << >> /\ mode \in Modes

Enough == r.at + Needs(r) - 1 <= sent
(* the reader takes what it can before more is delivered *)
Deliver == /\ ~ closed /\ sent < Len(all) /\ ~ Final(r) /\ ~ Enough /\ Len(got) < 2
           /\ \E p \in Pieces : sent' = (IF sent + p > Len(all) THEN Len(all) ELSE sent + p)
           /\ UNCHANGED <<fixed, closed, r, got>>
Close == ~ closed /\ ~ Enough /\ closed' = TRUE /\ UNCHANGED <<fixed, sent, r, got>>
Read == /\ ~ Final(r) /\ Enough
        /\ r' = ReadStep(r, all, inf, mode)
        /\ UNCHANGED <<fixed, sent, closed, got>>
GiveUp == /\ ~ Final(r) /\ ~ Enough /\ closed
          /\ r' = Rejected(r)
          /\ UNCHANGED <<fixed, sent, closed, got>>
Accept == /\ r.ph = "done" /\ Len(got) < 2
          /\ got' = Append(got, r) /\ r' = ReadInit(r.at)
          /\ UNCHANGED <<fixed, sent, closed>>
Next == Deliver \/ Close \/ Read \/ GiveUp \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
AllRepresentable == \A k \in 1..2 : Representable(cls[k])
Ends(k) == IF k = 1 THEN Len(Bytes(cls[1])) ELSE Len(all)
(* clouds come out as they went in, in order, and each ends where its bytes end *)
Faithful ==
  mode \in {"auto"} => \A k \in 1..Len(got) : SameCloud(got[k], cls[k]) /\ got[k].at = Ends(k) + 1
(* a cloud is accepted only when all of its bytes were delivered *)
Complete == mode # "hdr" => \A k \in 1..Len(got) : Ends(k) <= sent
(* complete input is never refused *)
NotRefused == (mode = "auto" /\ r.ph = "reject" /\ Len(got) < 2) => sent < Ends(Len(got) + 1)
(* readers dedicated to one form refuse the other *)
Dedicated == \A k \in 1..Len(got) : (mode \in {"unc", "rec"} => ~ cls[k].c) /\ (mode = "comp" => cls[k].c)
(* the reader never looks past the cloud it is reading *)
NoOverread == Len(got) = 0 /\ mode # "hdr" => r.at <= Ends(1) + 1
(* the writer relation accepts what is written, and only that *)
Written == sent = 0 => \A k \in 1..2 :
  /\ WriteOK(cls[k], "auto", Bytes(cls[k]), InfOf(cls[k]))
  /\ ~ cls[k].c => \A p \in 1..Len(Bytes(cls[k])) :
       ~ WriteOK(cls[k], "auto", [Bytes(cls[k]) EXCEPT ![p] = (@ + 1) % 256], << >>)
Terminates == <>(Final(r) \/ Len(got) = 2)
=============================================================================
