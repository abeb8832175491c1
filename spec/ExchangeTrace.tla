---------------------------- MODULE ExchangeTrace ----------------------------
(* The real exchange, run by several ranks under many schedules: every entry *)
(* into and return from a round is an event. Ranks count from 0, the lists   *)
(* in the records from 1.                                                    *)
EXTENDS TraceLib
VARIABLES ranks, round, left, sent, rounds, l
vars == <<ranks, round, left, sent, rounds, l>>
A == INSTANCE ExchangeRounds WITH Nothing <- "[]"

Data(r) == [p \in ranks |-> r.data[p + 1]]
Got(r) == [p \in { r.data[i][1] : i \in DOMAIN r.data } |->
             (CHOOSE x \in Range(r.data) : x[1] = p)[2]]

Step(r) ==
  CASE r.ev = "run"   -> A!Start(0..(r.n - 1)) /\ rounds' = r.rounds
    [] r.ev = "begin" -> A!Begin(r.rank, Data(r)) /\ r.round = round[r.rank] /\ UNCHANGED rounds
    [] r.ev = "end"   -> /\ A!End(r.rank, Got(r)) /\ r.round = left[r.rank]
                         /\ Len(r.data) = Cardinality(ranks) - 1
                         /\ UNCHANGED rounds
    \* all rounds were done and nothing is left over
    [] r.ev = "done"  -> /\ A!AllDone /\ \A p \in ranks : left[p] = rounds
                         /\ r.leftover = 0 /\ r.unfinished = 0
                         /\ UNCHANGED <<ranks, round, left, sent, rounds>>
    [] OTHER -> FALSE

Init == ranks = {} /\ round = <<>> /\ left = <<>> /\ sent = <<>> /\ rounds = 0 /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
