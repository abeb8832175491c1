-------------------------------- MODULE Output --------------------------------
(* Snapshots of a simulation on several ranks that write to the same files.    *)
(* A file format that only one process may have open: the main rank creates     *)
(* the files of a snapshot before it passes the first barrier, then the ranks   *)
(* write one after another: rank r passes r barriers, opens the files, writes   *)
(* and closes them, and passes the remaining barriers. A snapshot is due when    *)
(* the time has reached the next time of output, and at the end.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ranks,        \* number of ranks
          First, Between, Final,
          Steps         \* the sizes of the time steps that are possible

R == 0..Ranks-1

(* The schedule of snapshots, as a function of the times of the updates.        *)
Due(time, next, stop) == stop \/ time >= next
(* The run ends with the update that begins at or after the final time.         *)
Stops(before, final) == before >= final

VARIABLES steps,     \* time steps all ranks take, decided when the first gets there
          at,        \* what a rank is doing
          upd,       \* its update
          time, next, num, stop,
          passed,    \* barriers it has entered
          left,      \* barriers it still has to pass before it goes on
          made,      \* snapshots whose files exist
          open,      \* snapshot -> ranks that have its files open
          wrote      \* snapshot -> sequence of <<rank, time>>
vars == <<steps, at, upd, time, next, num, stop, passed, left, made, open, wrote>>

Snaps == 0..20
Init ==
  /\ steps = <<>>
  /\ at = [r \in R |-> "step"] /\ upd = [r \in R |-> 0]
  /\ time = [r \in R |-> 0] /\ next = [r \in R |-> First] /\ num = [r \in R |-> 0]
  /\ stop = [r \in R |-> FALSE]
  /\ passed = [r \in R |-> 0] /\ left = [r \in R |-> 0]
  /\ made = {} /\ open = [s \in Snaps |-> {}] /\ wrote = [s \in Snaps |-> <<>>]

Set(f, r, v) == [f EXCEPT ![r] = v]

Step(r) ==
  /\ at[r] = "step"
  /\ upd' = Set(upd, r, upd[r] + 1)
  /\ \E d \in Steps :
       /\ (upd[r] < Len(steps) => steps[upd[r] + 1] = d)
       /\ steps' = IF upd[r] < Len(steps) THEN steps ELSE Append(steps, d)
       /\ time' = Set(time, r, time[r] + d)
       /\ stop' = Set(stop, r, Stops(time[r], Final))
       /\ at' = Set(at, r, IF ~Due(time[r] + d, next[r], stop'[r]) THEN "step"
                           ELSE IF r = 0 THEN "create" ELSE "before")
  /\ left' = Set(left, r, r)
  /\ UNCHANGED <<next, num, passed, made, open, wrote>>

Create ==
  /\ at[0] = "create"
  /\ made' = made \cup {num[0]}
  /\ at' = Set(at, 0, "before")
  /\ UNCHANGED <<steps, upd, time, next, num, stop, passed, left, open, wrote>>

(* A barrier: entered, and left when all have entered it.                       *)
Enter(r) ==
  /\ at[r] \in {"before", "after"} /\ left[r] > 0
  /\ passed' = Set(passed, r, passed[r] + 1)
  /\ left' = Set(left, r, left[r] - 1)
  /\ at' = Set(at, r, IF at[r] = "before" THEN "in-before" ELSE "in-after")
  /\ UNCHANGED <<steps, upd, time, next, num, stop, made, open, wrote>>
Leave(r) ==
  /\ at[r] \in {"in-before", "in-after"}
  /\ \A s \in R : passed[s] >= passed[r]
  /\ at' = Set(at, r, IF at[r] = "in-before" THEN "before" ELSE "after")
  /\ UNCHANGED <<steps, upd, time, next, num, stop, passed, left, made, open, wrote>>

Open(r) ==
  /\ at[r] = "before" /\ left[r] = 0
  /\ open' = Set(open, num[r], open[num[r]] \cup {r})
  /\ at' = Set(at, r, IF num[r] \in made THEN "write" ELSE "failed")
  /\ UNCHANGED <<steps, upd, time, next, num, stop, passed, left, made, wrote>>
Close(r) ==
  /\ at[r] = "write"
  /\ wrote' = Set(wrote, num[r], Append(wrote[num[r]], <<r, time[r]>>))
  /\ open' = Set(open, num[r], open[num[r]] \ {r})
  /\ left' = Set(left, r, Ranks - r)
  /\ at' = Set(at, r, "after")
  /\ UNCHANGED <<steps, upd, time, next, num, stop, passed, made>>
Finish(r) ==
  /\ at[r] = "after" /\ left[r] = 0
  /\ num' = Set(num, r, num[r] + 1)
  /\ next' = Set(next, r, next[r] + Between)
  /\ at' = Set(at, r, IF stop[r] THEN "end" ELSE "step")
  /\ UNCHANGED <<steps, upd, time, stop, passed, left, made, open, wrote>>

Next == Create \/ \E r \in R : Step(r) \/ Enter(r) \/ Leave(r) \/ Open(r) \/ Close(r) \/ Finish(r)
Done == \A r \in R : at[r] = "end"
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneAtATime == \A s \in Snaps : Cardinality(open[s]) <= 1
NoneFails == \A r \in R : at[r] # "failed"
InOrder == \A s \in Snaps : \A k \in DOMAIN wrote[s] : wrote[s][k][1] = k - 1
SameTime == \A s \in Snaps : \A k \in DOMAIN wrote[s] : wrote[s][k][2] = wrote[s][1][2]
Complete == Done => \A s \in Snaps :
  /\ (s \in made) = (s < num[0])
  /\ Len(wrote[s]) = IF s < num[0] THEN Ranks ELSE 0
LastAtTheEnd == Done => wrote[num[0] - 1][1][2] = time[0]
NoBarrierLeft == Done => \A r, s \in R : passed[r] = passed[s]
NoDeadlock == ENABLED Next \/ Done
Ends == <>Done
=============================================================================
