-------------------------------- MODULE Sweep --------------------------------
(* The transport sweep over several ranks. In a sweep every active cell is    *)
(* solved once per direction, after the active cells upwind of it. What a     *)
(* cell sends out changes by a correction, which is applied at once to a      *)
(* neighbour on the same rank and sent to an active neighbour on another      *)
(* rank; those for inactive cells of other ranks are exchanged once the sweep *)
(* is over. What crosses a periodic boundary is input of the next sweep. A    *)
(* rank knows from the levels of its neighbours how many corrections to       *)
(* expect. The levels of the cells change between time steps.                 *)
(*                                                                            *)
(* The rate cell u sends out when solved in sweep k is represented by k       *)
(* itself, so that a sum of corrections is right only if none is missing,     *)
(* doubled or misplaced.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Schedule

CONSTANTS Cells,        \* 1..n
          Ranks,        \* 1..m
          Dirs,         \* 1..k; odd ones go up, even ones down
          Steps,        \* number of time steps
          Levels,       \* number of time step levels
          AllOwners,    \* FALSE: cell 1 is on rank 1
          Inactive,     \* corrections for inactive remote cells: "exchange" them
                        \* after the sweep, "keep" them until the cell is active
                        \* or "drop" them
          PeriodicNow   \* TRUE: what crosses a periodic boundary is used at once

VARIABLES owner, links, wraps, lev, eager,        \* fixed during a run
          at,        \* by rank: the sweep it is in
          todo,      \* by rank: the tasks of this sweep not solved yet
          miss,      \* by cell and direction: upwind neighbours not heard of
          got,       \* by edge: sum of the corrections received
          sent,      \* by cell and direction: the rate sent out
          queue,     \* by pair of ranks: corrections to be sent
          busy,      \* by pair of ranks: batch the send buffer holds
          wire,      \* by pair of ranks: batches under way
          expect,    \* by pair of ranks: corrections to be received
          kept,      \* by edge: corrections for an inactive cell
          mail,      \* by edge: what was handed to the exchanges after the sweeps
          late,      \* by edge: corrections through a periodic boundary
          done,      \* by rank: the last sweep it has finished
          ok         \* every rate used was the right one

fixed == <<owner, links, wraps, lev, eager>>
vars == <<fixed, at, todo, miss, got, sent, queue, busy, wire, expect, kept, mail, late, done, ok>>

Up == { <<a, b>> \in Cells \X Cells : a < b }
(* An edge <<u, c, d, w>>: c is downwind of u in direction d, across a        *)
(* periodic boundary if w.                                                    *)
Edges ==
  { <<e[1], e[2], d, FALSE>> : e \in links, d \in { x \in Dirs : x % 2 = 1 } } \cup
  { <<e[2], e[1], d, FALSE>> : e \in links, d \in { x \in Dirs : x % 2 = 0 } } \cup
  { <<e[2], e[1], d, TRUE>> : e \in wraps, d \in { x \in Dirs : x % 2 = 1 } } \cup
  { <<e[1], e[2], d, TRUE>> : e \in wraps, d \in { x \in Dirs : x % 2 = 0 } }

(* The sweeps of the last time steps of a run, in which all levels are        *)
(* allowed, numbered from 1.                                                  *)
PerStep == Pow2(Levels - 1)
Total == Steps * PerStep
StepOf(k) == (k - 1) \div PerStep + 1
SweepLevel(k) == LevelOf(Levels, 100, (k - 1) % PerStep)
Active(c, k) == lev[StepOf(k)][c] >= SweepLevel(k)
LastActive(c, k) ==
  LET s == { j \in 1..k : Active(c, j) }
  IN  IF s = {} THEN 0 ELSE CHOOSE j \in s : \A i \in s : i <= j

Owned(r) == { c \in Cells : owner[c] = r }
Tasks(r, k) == { <<c, d>> \in Owned(r) \X Dirs : Active(c, k) }
Missing(k, c, d) ==
  Cardinality({ e \in Edges : e[2] = c /\ e[3] = d /\ ~e[4] /\ Active(e[1], k) })
Expected(k, q, r) ==
  Cardinality({ e \in Edges : owner[e[1]] = q /\ owner[e[2]] = r /\ q # r
                              /\ Active(e[1], k) /\ Active(e[2], k) })

Pairs == { <<q, r>> \in Ranks \X Ranks : q # r }

Init ==
  /\ owner \in [Cells -> Ranks] /\ (AllOwners \/ owner[1] = 1)
  /\ links \in SUBSET Up
  /\ wraps \in SUBSET { <<a, b>> \in Up : b - a > 1 }
  /\ lev \in [1..Steps -> [Cells -> 0..(Levels - 1)]]
  /\ eager \in BOOLEAN
  /\ at = [r \in Ranks |-> 1]
  /\ todo = [r \in Ranks |-> Tasks(r, 1)]
  /\ miss = [x \in Cells \X Dirs |-> IF Active(x[1], 1) THEN Missing(1, x[1], x[2]) ELSE 0]
  /\ got = [e \in Edges |-> 0]
  /\ sent = [x \in Cells \X Dirs |-> 0]
  /\ queue = [p \in Pairs |-> <<>>]
  /\ busy = [p \in Pairs |-> 0]
  /\ wire = [p \in Pairs |-> <<>>]
  /\ expect = [p \in Pairs |-> Expected(1, p[1], p[2])]
  /\ kept = [e \in Edges |-> 0]
  /\ mail = [e \in Edges |-> <<>>]
  /\ late = [e \in Edges |-> 0]
  /\ done = [r \in Ranks |-> 0]
  /\ ok = TRUE

Out(c, d) == { e \in Edges : e[1] = c /\ e[3] = d }

RECURSIVE AsSeq(_)
AsSeq(s) == IF s = {} THEN <<>>
            ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o AsSeq(s \ {x})

Wait(e) == e[4] /\ ~PeriodicNow

(* Corrections are <<edge, amount>>. *)
Solve(r, c, d) ==
  LET k == at[r]
      change == k - sent[<<c, d>>]
      near == { e \in Out(c, d) : owner[e[2]] = r }
      far == Out(c, d) \ near
      go == { e \in far : Active(e[2], k) }
  IN
  /\ <<c, d>> \in todo[r]
  /\ miss[<<c, d>>] = 0
  /\ done[r] < k
  /\ ok' = (ok /\ \A e \in Edges : e[2] = c /\ e[3] = d =>
                    got[e] = LastActive(e[1], IF e[4] THEN k - 1 ELSE k))
  /\ todo' = [todo EXCEPT ![r] = @ \ {<<c, d>>}]
  /\ sent' = [sent EXCEPT ![<<c, d>>] = k]
  /\ got' = [e \in Edges |-> IF e \in near /\ ~Wait(e) THEN got[e] + change ELSE got[e]]
  /\ late' = [e \in Edges |-> IF e \in near /\ Wait(e) THEN late[e] + change ELSE late[e]]
  /\ miss' = [x \in Cells \X Dirs |->
       IF <<c, x[1], x[2], FALSE>> \in near /\ x[2] = d /\ Active(x[1], k)
       THEN miss[x] - 1 ELSE miss[x]]
  /\ queue' = [p \in Pairs |->
       IF p[1] # r THEN queue[p]
       ELSE queue[p] \o AsSeq({ <<e, change + kept[e]>> :
                                e \in { x \in go : owner[x[2]] = p[2] } })]
  /\ kept' = [e \in Edges |->
       IF e \in go THEN 0
       ELSE IF e \in far /\ Inactive # "drop" THEN kept[e] + change ELSE kept[e]]
  /\ UNCHANGED <<fixed, at, busy, wire, expect, mail, done>>

(* The send buffer of a pair is reused only after its send is complete.      *)
Send(p) ==
  /\ queue[p] # <<>> /\ busy[p] = 0
  /\ wire' = [wire EXCEPT ![p] = Append(@, queue[p])]
  /\ busy' = [busy EXCEPT ![p] = Len(wire[p]) + 1]
  /\ queue' = [queue EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<fixed, at, todo, miss, got, sent, expect, kept, mail, late, done, ok>>

(* A send completes at any time or only once the message has been received.  *)
Complete(p) ==
  /\ busy[p] # 0
  /\ eager \/ wire[p] = <<>>
  /\ busy' = [busy EXCEPT ![p] = 0]
  /\ UNCHANGED <<fixed, at, todo, miss, got, sent, queue, wire, expect, kept, mail, late, done, ok>>

Receive(p) ==
  LET r == p[2]
      k == at[r]
      batch == Head(wire[p])
      in == { batch[i] : i \in 1..Len(batch) }
      Sum(e) == LET i == { j \in 1..Len(batch) : batch[j][1] = e }
                IN  IF i = {} THEN 0 ELSE batch[CHOOSE j \in i : TRUE][2]
      Num(x) == Cardinality({ j \in 1..Len(batch) :
                  batch[j][1][2] = x[1] /\ batch[j][1][3] = x[2] /\ ~batch[j][1][4] })
  IN
  /\ at[r] <= Total
  /\ wire[p] # <<>> /\ expect[p] > 0
  /\ wire' = [wire EXCEPT ![p] = Tail(@)]
  /\ expect' = [expect EXCEPT ![p] = @ - Len(batch)]
  /\ got' = [e \in Edges |-> IF Wait(e) THEN got[e] ELSE got[e] + Sum(e)]
  /\ late' = [e \in Edges |-> IF Wait(e) THEN late[e] + Sum(e) ELSE late[e]]
  /\ miss' = [x \in Cells \X Dirs |->
       IF owner[x[1]] = r /\ Active(x[1], k) THEN miss[x] - Num(x) ELSE miss[x]]
  /\ UNCHANGED <<fixed, at, todo, sent, queue, busy, kept, mail, done, ok>>

(* A rank is through with its part of a sweep and hands over the corrections *)
(* for inactive cells of the others.                                         *)
Finish(r) ==
  /\ at[r] <= Total /\ done[r] < at[r]
  /\ todo[r] = {}
  /\ \A p \in Pairs : (p[1] = r => busy[p] = 0 /\ queue[p] = <<>>) /\ (p[2] = r => expect[p] = 0)
  /\ done' = [done EXCEPT ![r] = at[r]]
  /\ IF Inactive = "exchange"
     THEN LET from == { e \in Edges : owner[e[1]] = r /\ owner[e[2]] # r } IN
          /\ mail' = [e \in Edges |-> IF e \in from THEN Append(mail[e], kept[e]) ELSE mail[e]]
          /\ kept' = [e \in Edges |-> IF e \in from THEN 0 ELSE kept[e]]
     ELSE UNCHANGED <<mail, kept>>
  /\ UNCHANGED <<fixed, at, todo, miss, got, sent, queue, busy, wire, expect, late, ok>>

(* It takes what the others handed over, updates its active cells and enters *)
(* the next sweep.                                                           *)
Leave(r) ==
  LET k == at[r]
      into == { e \in Edges : owner[e[2]] = r }
      taken == { e \in into : mail[e] # <<>> }
      new == [e \in Edges |-> got[e] + (IF e \in into THEN late[e] ELSE 0)
                                    + (IF e \in taken THEN Head(mail[e]) ELSE 0)]
  IN
  /\ done[r] = k
  /\ Inactive = "exchange" \/ StepOf(k + 1) # StepOf(k) => \A q \in Ranks : done[q] >= k
  /\ got' = new
  /\ late' = [e \in Edges |-> IF e \in into THEN 0 ELSE late[e]]
  /\ mail' = [e \in Edges |-> IF e \in taken THEN Tail(mail[e]) ELSE mail[e]]
  /\ ok' = (ok /\ \A e \in into : new[e] = LastActive(e[1], k))
  /\ at' = [at EXCEPT ![r] = k + 1]
  /\ IF k = Total THEN UNCHANGED <<todo, miss, expect>>
     ELSE /\ todo' = [todo EXCEPT ![r] = Tasks(r, k + 1)]
          /\ miss' = [x \in Cells \X Dirs |->
               IF owner[x[1]] = r /\ Active(x[1], k + 1)
               THEN Missing(k + 1, x[1], x[2]) ELSE miss[x]]
          /\ expect' = [p \in Pairs |->
               IF p[2] = r THEN Expected(k + 1, p[1], r) ELSE expect[p]]
  /\ UNCHANGED <<fixed, sent, queue, busy, wire, kept, done>>

Finished == \A r \in Ranks : at[r] > Total

Next ==
  \/ \E r \in Ranks : \E x \in todo[r] : Solve(r, x[1], x[2])
  \/ \E p \in Pairs : Send(p) \/ Complete(p) \/ Receive(p)
  \/ \E r \in Ranks : Finish(r) \/ Leave(r)
  \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
RightRates == ok
CountsNatural == (\A x \in DOMAIN miss : miss[x] >= 0) /\ (\A p \in Pairs : expect[p] >= 0)
(* Nothing is left over, and a rank that goes on to the next sweep has        *)
(* handed over everything the others wait for.                               *)
NothingLeft ==
  /\ Finished => \A p \in Pairs : queue[p] = <<>> /\ wire[p] = <<>> /\ busy[p] = 0
  /\ Finished => \A e \in Edges : mail[e] = <<>> /\ kept[e] = 0 /\ late[e] = 0
  /\ \A p \in Pairs : at[p[1]] > at[p[2]] =>
       \/ wire[p] # <<>> \/ expect[p] = 0
(* Ranks are never more than one sweep apart.                                *)
SameSweep == \A q, r \in Ranks : at[q] - at[r] \in {-1, 0, 1}
Termination == <>Finished
=============================================================================
