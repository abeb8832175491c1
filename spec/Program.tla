------------------------------- MODULE Program -------------------------------
(* A run of the program from the files to the snapshots. Each rank reads some *)
(* of the particles, sends each to the rank that owns its part of the box,    *)
(* and then all ranks do the time steps together: a cell is updated after the *)
(* cell upwind of it, with what that one has now and, for the first cell,     *)
(* what the last one had in the time step before (periodic boundary).         *)
(* Snapshots are written by one rank after the other. Whoever reads and owns  *)
(* what, and whoever is faster, the snapshots are the same.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NumCells, NumRanks, Steps,
          Now          \* TRUE: the first cell uses what has arrived from the last one
Cells == 1..NumCells
Ranks == 1..NumRanks
Before(c) == IF c = 1 THEN NumCells ELSE c - 1

VARIABLES owner,      \* by cell: the rank that will own it
          held,       \* by rank: particles it holds as <<cell, value>>
          parcels,    \* particles under way as <<to, cell, value>>
          ready,      \* ranks that have sent theirs away and received what is theirs
          step,       \* by rank
          val,        \* by cell: the value after each time step, 0 first
          news,       \* by rank: values heard of as <<cell, step, value>>
          turn,       \* the rank that writes next
          snaps       \* by step: rows
vars == <<owner, held, parcels, ready, step, val, news, turn, snaps>>

Initial(c) == 2 * c + 1
(* What one rank on its own gets. *)
RECURSIVE Ref(_, _)
Ref(c, t) == IF t = 0 THEN Initial(c)
             ELSE Ref(c, t - 1) + (IF c = 1 THEN Ref(NumCells, t - 1) ELSE Ref(c - 1, t))

Init ==
  /\ owner \in [Cells -> Ranks]
  /\ \E reader \in [Cells -> Ranks] :
       held = [r \in Ranks |-> { <<c, Initial(c)>> : c \in { x \in Cells : reader[x] = r } }]
  /\ parcels = {} /\ ready = {}
  /\ step = [r \in Ranks |-> 0]
  /\ val = [c \in Cells |-> <<>>]
  /\ news = [r \in Ranks |-> {}]
  /\ turn = 1
  /\ snaps = [t \in 0..Steps |-> {}]

Mine(r) == { c \in Cells : owner[c] = r }
Ship(r) ==
  LET away == { h \in held[r] : owner[h[1]] # r } IN
  /\ away # {}
  /\ held' = [held EXCEPT ![r] = @ \ away]
  /\ parcels' = parcels \cup { <<owner[h[1]], h[1], h[2]>> : h \in away }
  /\ UNCHANGED <<owner, ready, step, val, news, turn, snaps>>
Take(r) ==
  /\ \E p \in parcels :
       /\ p[1] = r
       /\ parcels' = parcels \ {p}
       /\ held' = [held EXCEPT ![r] = @ \cup {<<p[2], p[3]>>}]
  /\ UNCHANGED <<owner, ready, step, val, news, turn, snaps>>
(* All ranks meet: nothing is under way any more. *)
Start(r) ==
  /\ r \notin ready
  /\ \A q \in Ranks : { h[1] : h \in held[q] } = Mine(q)
  /\ ready' = ready \cup {r}
  /\ val' = [c \in Cells |-> IF c \in Mine(r)
                             THEN <<(CHOOSE h \in held[r] : h[1] = c)[2]>> ELSE val[c]]
  /\ UNCHANGED <<owner, held, parcels, step, news, turn, snaps>>

(* A rank that is in time step t (t of them are complete). *)
Len1(c) == Len(val[c]) - 1
Tell(r) ==
  /\ \E c \in Mine(r) : \E t \in 0..Len1(c) : \E q \in Ranks \ {r} :
       /\ \E d \in Mine(q) : Before(d) = c
       /\ <<c, t, val[c][t + 1]>> \notin news[q]
       /\ news' = [news EXCEPT ![q] = @ \cup {<<c, t, val[c][t + 1]>>}]
  /\ UNCHANGED <<owner, held, parcels, ready, step, val, turn, snaps>>
Known(r, c) == IF c \in Mine(r) THEN { <<c, t, val[c][t + 1]>> : t \in 0..Len1(c) } ELSE news[r]
Update(r) ==
  /\ Ranks = ready
  /\ step[r] < Steps
  /\ turn = 1 \/ turn > r                      \* not while its snapshot is due
  /\ snaps[step[r]] # {} /\ \A c \in Cells : \E x \in snaps[step[r]] : x[1] = c
  /\ \E c \in Mine(r) :
       /\ Len1(c) = step[r]
       /\ \E k \in Known(r, Before(c)) :
            /\ k[1] = Before(c)
            /\ IF c = 1
               THEN IF Now THEN \A m \in Known(r, Before(c)) : m[1] = k[1] => m[2] <= k[2]
                    ELSE k[2] = step[r]
               ELSE k[2] = step[r] + 1
            /\ val' = [val EXCEPT ![c] = Append(@, @[Len(@)] + k[3])]
  /\ UNCHANGED <<owner, held, parcels, ready, step, news, turn, snaps>>
Advance(r) ==
  /\ Ranks = ready /\ step[r] < Steps
  /\ snaps[step[r]] # {}
  /\ \A c \in Mine(r) : Len1(c) = step[r] + 1
  /\ \A c \in Cells : \E x \in snaps[step[r]] : x[1] = c
  /\ step' = [step EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<owner, held, parcels, ready, val, news, turn, snaps>>
(* The snapshot after t time steps, when all ranks have done them. *)
Write(r) ==
  LET t == step[r] IN
  /\ Ranks = ready
  /\ \A q \in Ranks : step[q] = t
  /\ turn = r
  /\ ~ \A c \in Cells : \E x \in snaps[t] : x[1] = c
  /\ snaps' = [snaps EXCEPT ![t] = @ \cup { <<c, val[c][t + 1]>> : c \in Mine(r) }]
  /\ turn' = IF \A c \in Cells : \E x \in snaps'[t] : x[1] = c THEN 1 ELSE r + 1
  /\ UNCHANGED <<owner, held, parcels, ready, step, val, news>>

Finished == \A c \in Cells : \E x \in snaps[Steps] : x[1] = c
Next ==
  \/ \E r \in Ranks : Ship(r) \/ Take(r) \/ Start(r) \/ Tell(r) \/ Update(r) \/ Advance(r) \/ Write(r)
  \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoneLost ==
  /\ \A c \in Cells : Cardinality({ r \in Ranks : \E h \in held[r] : h[1] = c })
                      + Cardinality({ p \in parcels : p[2] = c }) = 1
(* The result is a function of the input alone. *)
SameResult == \A t \in 0..Steps : snaps[t] \subseteq { <<c, Ref(c, t)>> : c \in Cells }
Ends == <>Finished
=============================================================================
