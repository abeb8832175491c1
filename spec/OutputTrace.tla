----------------------------- MODULE OutputTrace -----------------------------
(* Whole runs of the real code: initial conditions in files of several units    *)
(* are read by some ranks, snapshots are written to files, and the first of      *)
(* them is read again by other ranks. Creating, opening and closing of files      *)
(* is recorded as it happens. What the ranks do with files must be a behaviour    *)
(* of Output (barriers are not recorded), and the files must hold what the       *)
(* particles had at the time.                                                    *)
EXTENDS TraceLib, SequencesExt
VARIABLES l, run,
          upd, time, next, num, stop, due, ended,   \* per rank
          user,    \* file -> the rank that has it open, or -1
          wrote,   \* <<rank, snapshot, file>> that were written
          at,      \* snapshot -> [upd, time] of the main rank
          first    \* tags in the order of the first snapshot
vars == <<l, run, upd, time, next, num, stop, due, ended, user, wrote, at, first>>
O == INSTANCE Output WITH Ranks <- 1, First <- 0, Between <- 0, Final <- 0, Steps <- {0}, steps <- 0, at <- 0, upd <- 0,
                          time <- 0, next <- 0, num <- 0, stop <- 0, passed <- 0, left <- 0, made <- 0, open <- 0, wrote <- 0

Rec == Trace[l]
None == [x \in {} |-> 0]
R == 0..run.ranks-1
Init ==
  /\ l = 1 /\ run = None
  /\ upd = None /\ time = None /\ next = None /\ num = None /\ stop = None /\ due = None /\ ended = {}
  /\ user = None /\ wrote = {} /\ at = None /\ first = <<>>

Start ==
  /\ Rec.ev = "start"
  /\ run' = Rec
  /\ LET S == 0..Rec.ranks-1 IN
       /\ upd' = [r \in S |-> 0] /\ time' = [r \in S |-> 0] /\ num' = [r \in S |-> 0]
       /\ next' = [r \in S |-> Rec.first] /\ stop' = [r \in S |-> FALSE] /\ due' = [r \in S |-> FALSE]
  /\ ended' = {} /\ user' = None /\ wrote' = {} /\ at' = None /\ first' = <<>>

HasOpen(r) == \E f \in DOMAIN user : user[f] = r
(* Where a rank is after it is done with the snapshot that was due, if any.      *)
NumNow(r) == IF due[r] THEN num[r] + 1 ELSE num[r]
NextNow(r) == IF due[r] THEN next[r] + run.between ELSE next[r]

Update ==
  /\ Rec.ev = "update"
  /\ LET r == Rec.rank
         t == time[r] + run.steps[upd[r] + 1]
         s == O!Stops(time[r], run.final)
     IN  /\ ~stop[r] /\ ~HasOpen(r) /\ ~run.refuse
         /\ Rec.time = t
         \* all have written what was due before, so that nobody can be far behind
         /\ due[r] => \A q \in R : num[q] + 1 >= NumNow(r)
         /\ upd' = [upd EXCEPT ![r] = @ + 1]
         /\ time' = [time EXCEPT ![r] = t]
         /\ stop' = [stop EXCEPT ![r] = s]
         /\ num' = [num EXCEPT ![r] = NumNow(r)]
         /\ next' = [next EXCEPT ![r] = NextNow(r)]
         /\ due' = [due EXCEPT ![r] = O!Due(t, NextNow(r), s)]
         /\ at' = IF r = 0 /\ O!Due(t, NextNow(r), s) THEN (NumNow(r) :> [upd |-> upd[r] + 1, time |-> t]) @@ at ELSE at
  /\ UNCHANGED <<run, ended, user, wrote, first>>

File == <<Rec.snap, Rec.file>>
Create ==
  /\ Rec.ev = "create"
  /\ Rec.rank = 0 /\ due[0] /\ Rec.snap = num[0]
  /\ Rec.file \in 0..run.files-1
  /\ File \notin DOMAIN user
  /\ user' = (File :> 0) @@ user
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, ended, wrote, at, first>>
Open ==
  /\ Rec.ev = "open"
  /\ due[Rec.rank] /\ Rec.snap = num[Rec.rank]
  /\ File \in DOMAIN user
  \* nobody else has any of the files open
  /\ \A f \in DOMAIN user : user[f] \in {-1, Rec.rank}
  /\ user[File] = -1
  /\ <<Rec.rank, Rec.snap, Rec.file>> \notin wrote
  /\ user' = [user EXCEPT ![File] = Rec.rank]
  /\ wrote' = wrote \cup {<<Rec.rank, Rec.snap, Rec.file>>}
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, ended, at, first>>
Close ==
  /\ Rec.ev = "close"
  /\ File \in DOMAIN user /\ user[File] = Rec.rank
  /\ user' = [user EXCEPT ![File] = -1]
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, ended, wrote, at, first>>

(* A rank ends with the update after the final time.                             *)
End ==
  /\ Rec.ev = "end"
  /\ stop[Rec.rank] /\ due[Rec.rank] /\ ~HasOpen(Rec.rank)
  /\ \A k \in DOMAIN Rec.held : LET p == Rec.held[k] IN
       /\ p.tag \in DOMAIN run.pos /\ p.pos = run.pos[p.tag]
       /\ p.temp = 1000 * upd[Rec.rank] + p.tag
  /\ ended' = ended \cup {[rank |-> Rec.rank, tags |-> [k \in DOMAIN Rec.held |-> Rec.held[k].tag]]}
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, user, wrote, at, first>>

Done ==
  /\ Rec.ev = "done"
  /\ Rec.leftover = 0 /\ Rec.unfinished = 0
  /\ { e.rank : e \in ended } = R
  /\ \A q, r \in R : num[q] = num[r] /\ time[q] = time[r]
  \* every particle is on one rank
  /\ LET all == FoldLeft(LAMBDA a, e : a \o e.tags, <<>>, SetToSeq(ended))
     IN  Len(all) = Len(run.pos) /\ Range(all) = DOMAIN run.pos
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, ended, user, wrote, at, first>>

Static == {"mass", "position"}
Dims(s) == IF s = "mass" THEN <<0, 0, 1, 0>> ELSE IF s = "position" THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 1>>
Sets(s) == IF s = 0 THEN Range(run.sets) ELSE Range(run.sets) \ Static
Whole(c, f(_)) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, c)

ContentsOk(s, c, order) ==
  LET u == at[s].upd
      temps == Whole(c, LAMBDA x : x.temperature)
      masses == Whole(c, LAMBDA x : x.mass)
      places == Whole(c, LAMBDA x : x.position)
  IN  /\ \A k \in DOMAIN c : LET x == c[k] IN
           /\ x.file \in 0..run.files-1 /\ (k > 1 => x.file > c[k-1].file)
           /\ x.time = at[s].time
           /\ Range(x.sets) = Sets(s)
           /\ \A j \in DOMAIN x.sets : x.dims[j] = Dims(x.sets[j]) /\ x.unit[j] = 1
      /\ "temperature" \in Sets(s) => temps = [k \in DOMAIN order |-> 1000 * u + order[k]]
      /\ "mass" \in Sets(s) => masses = order
      /\ "position" \in Sets(s) => places = [k \in DOMAIN order |-> run.pos[order[k]]]

Snapshots ==
  /\ Rec.ev = "snapshots"
  /\ Rec.conflicts = 0
  /\ { Rec.all[k].num : k \in DOMAIN Rec.all } = 0..num[0] /\ Len(Rec.all) = num[0] + 1
  /\ DOMAIN at = 0..num[0]
  \* the particles are in the same order in all snapshots, only those that are constant are missing from the later ones
  /\ LET c == Rec.all[1].contents
         temps == Whole(c, LAMBDA x : x.temperature)
         order == [k \in DOMAIN temps |-> temps[k] - 1000 * at[0].upd]
     IN  /\ Rec.all[1].num = 0
         /\ Len(order) = Len(run.pos) /\ Range(order) = DOMAIN run.pos
         /\ \A k \in DOMAIN Rec.all : ContentsOk(Rec.all[k].num, Rec.all[k].contents, order)
         /\ first' = order
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, ended, user, wrote, at>>

Again ==
  /\ Rec.ev = "again"
  /\ LET all == FoldLeft(LAMBDA a, h : a \o h, <<>>, Rec.held)
     IN  /\ Len(all) = Len(run.pos)
         /\ { all[k].tag : k \in DOMAIN all } = DOMAIN run.pos
         /\ \A k \in DOMAIN all : LET p == all[k] IN
              p.pos = run.pos[p.tag] /\ p.temp = 1000 * at[0].upd + p.tag
  /\ run' = [run EXCEPT !.ranks = Rec.ranks]
  /\ ended' = { [rank |-> r, tags |-> IF r = 0 THEN [k \in DOMAIN run.pos |-> k] ELSE <<>>] : r \in 0..Rec.ranks-1 }
  /\ num' = [r \in 0..Rec.ranks-1 |-> 0] /\ time' = [r \in 0..Rec.ranks-1 |-> 0]
  /\ UNCHANGED <<upd, next, stop, due, user, wrote, at, first>>

Refused ==
  /\ Rec.ev = "refused"
  /\ run.refuse /\ Rec.refused
  /\ UNCHANGED <<run, upd, time, next, num, stop, due, ended, user, wrote, at, first>>

Next ==
  /\ l <= Len(Trace)
  /\ Start \/ Update \/ Create \/ Open \/ Close \/ End \/ Done \/ Snapshots \/ Again \/ Refused
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
