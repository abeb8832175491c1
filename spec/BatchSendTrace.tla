--------------------------- MODULE BatchSendTrace ---------------------------
(* A look at the buffers takes a while: what leaves during the look may be    *)
(* received before the look is over.                                          *)
EXTENDS TraceLib
VARIABLES l, n, total, queued, waiting, buffer, wire, got, looking, early, gone
vars == <<l, n, total, queued, waiting, buffer, wire, got, looking, early, gone>>
Pairs == { <<q, s>> \in (0..(n - 1)) \X (0..(n - 1)) : q # s }

Run(e) ==
  /\ e.ev = "run"
  /\ n' = e.ranks /\ total' = e.total
  /\ LET P == { <<q, s>> \in (0..(e.ranks - 1)) \X (0..(e.ranks - 1)) : q # s } IN
     /\ queued' = [p \in P |-> 0] /\ waiting' = [p \in P |-> 0]
     /\ buffer' = [p \in P |-> 0] /\ wire' = [p \in P |-> <<>>]
     /\ got' = [p \in P |-> 0] /\ early' = [p \in P |-> FALSE]
  /\ looking' = {} /\ gone' = {}

Queue(e) ==
  LET p == <<e.rank, e.to>> IN
  /\ e.ev = "queue"
  /\ queued' = [queued EXCEPT ![p] = @ + e.num]
  /\ waiting' = [waiting EXCEPT ![p] = @ + e.num]
  /\ UNCHANGED <<n, total, buffer, wire, got, looking, early, gone>>

Try(e) ==
  /\ e.ev = "try" /\ looking' = looking \cup {e.rank}
  /\ early' = [p \in Pairs |-> IF p[1] = e.rank THEN FALSE ELSE early[p]]
  /\ UNCHANGED <<n, total, queued, waiting, buffer, wire, got, gone>>

RECURSIVE Total(_, _)
Total(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Total(f, s \ {x})

Tried(e) ==
  LET mine == { p \in Pairs : p[1] = e.rank }
      goes == { p \in mine : waiting[p] > 0 /\ e.left[p[2] + 1] = 0 }
      stays == { p \in mine : e.left[p[2] + 1] > 0 }
      idle == mine \ (goes \cup stays)
  IN
  /\ e.ev = "tried" /\ e.rank \in looking
  /\ \A p \in stays : e.left[p[2] + 1] = waiting[p] /\ buffer[p] > 0 /\ ~early[p]
  /\ \E kept \in SUBSET { p \in idle : buffer[p] > 0 } :
       LET now == [p \in Pairs |-> IF p \in goes THEN waiting[p]
                                   ELSE IF p \in idle /\ p \notin kept THEN 0 ELSE buffer[p]]
       IN  Total(now, mine) = e.open /\ buffer' = now
  /\ wire' = [p \in Pairs |-> IF p \in goes /\ ~early[p] THEN Append(wire[p], waiting[p]) ELSE wire[p]]
  /\ waiting' = [p \in Pairs |-> IF p \in goes THEN 0 ELSE waiting[p]]
  /\ looking' = looking \ {e.rank}
  /\ early' = [p \in Pairs |-> IF p \in mine THEN FALSE ELSE early[p]]
  /\ UNCHANGED <<n, total, queued, got, gone>>

Recv(e) ==
  LET p == <<e.from, e.rank>> IN
  /\ e.ev = "recv"
  /\ e.items = [i \in 1..Len(e.items) |-> got[p] + i]
  /\ got' = [got EXCEPT ![p] = @ + Len(e.items)]
  /\ \/ /\ wire[p] # <<>> /\ Head(wire[p]) = Len(e.items)
        /\ wire' = [wire EXCEPT ![p] = Tail(@)]
        /\ UNCHANGED early
     \/ /\ wire[p] = <<>> /\ e.from \in looking /\ ~early[p]
        /\ waiting[p] = Len(e.items) /\ waiting[p] > 0
        /\ early' = [early EXCEPT ![p] = TRUE]
        /\ UNCHANGED wire
  /\ UNCHANGED <<n, total, queued, waiting, buffer, looking, gone>>

Dropped(e) ==
  /\ e.ev = "dropped" /\ e.rank \notin gone /\ e.size = n
  /\ \A p \in Pairs : p[1] = e.rank => waiting[p] = 0
  /\ gone' = gone \cup {e.rank}
  /\ UNCHANGED <<n, total, queued, waiting, buffer, wire, got, looking, early>>

Done(e) ==
  /\ e.ev = "done"
  /\ e.leftover = 0 /\ e.unfinished = 0
  /\ gone = 0..(n - 1)
  /\ \A p \in Pairs : got[p] = total[p[1] + 1][p[2] + 1] /\ wire[p] = <<>>
  /\ UNCHANGED <<n, total, queued, waiting, buffer, wire, got, looking, early, gone>>

Allowed(e) == Run(e) \/ Queue(e) \/ Try(e) \/ Tried(e) \/ Recv(e) \/ Dropped(e) \/ Done(e)
Init == /\ l = 1 /\ n = 0 /\ total = <<>> /\ queued = <<>> /\ waiting = <<>> /\ buffer = <<>>
        /\ wire = <<>> /\ got = <<>> /\ looking = {} /\ early = <<>> /\ gone = {}
Next == l <= Len(Trace) /\ Allowed(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
