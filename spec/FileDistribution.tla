-------------------------- MODULE FileDistribution --------------------------
(* How the entries of a snapshot that is spread over several files are dealt *)
(* out to the ranks (input), and how the entries of the ranks are dealt out  *)
(* to output files. In both cases there is one sequence of entries: files in *)
(* order, ranks in order. A region <<f, s, e>> is entries s .. e-1 of file f *)
(* (files are counted from 0, as in the code).                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxFiles, MaxEntries, MaxParts

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

(* All but the last part get the same; the last one gets what is left. *)
Parts(total, n) ==
  [k \in 1..n |-> IF k < n THEN total \div n ELSE total - (n - 1) * (total \div n)]

(***************************************************************************)
(* The relation that any distribution has to satisfy.                      *)
(***************************************************************************)
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))

Size(r) == r[3] - r[2]
RECURSIVE SizeOf(_)
SizeOf(rs) == IF rs = <<>> THEN 0 ELSE Size(Head(rs)) + SizeOf(Tail(rs))

(* Non-empty, within the files. *)
InBounds(files, rs) ==
  \A k \in DOMAIN rs :
    /\ rs[k][1] \in 0..(Len(files) - 1)
    /\ 0 <= rs[k][2] /\ rs[k][2] < rs[k][3] /\ rs[k][3] <= files[rs[k][1] + 1]

(* In order, without gaps or overlaps: each region starts where the one    *)
(* before it stopped, or at the start of a later file when that is done.   *)
RECURSIVE Follows(_, _, _, _)
Follows(files, rs, f, p) ==
  \* <<f, p>>: the next entry that has to be covered (f counted from 1)
  IF f <= Len(files) /\ p = files[f] THEN Follows(files, rs, f + 1, 0)
  ELSE IF rs = <<>> THEN f = Len(files) + 1 /\ p = 0
  ELSE /\ f <= Len(files)
       /\ Head(rs)[1] = f - 1
       /\ Head(rs)[2] = p
       /\ Follows(files, Tail(rs), f, Head(rs)[3])

Tiles(files, ranks) ==
  LET all == Joined(ranks) IN InBounds(files, all) /\ Follows(files, all, 1, 0)

(* Nobody gets less than the fair share; the remainder is less than one entry per part. *)
Fair(total, n, share) == share >= total \div n /\ share <= (total \div n) + n - 1

GoodInput(files, n, ranks) ==
  /\ Len(ranks) = n
  /\ Tiles(files, ranks)
  /\ \A r \in 1..n : Fair(Total(files), n, SizeOf(ranks[r]))

(* The sizes of the output files follow from what is written to them. *)
FileSizes(n, ranks) ==
  LET all == Joined(ranks)
      last(f) == { k \in DOMAIN all : all[k][1] = f - 1 }
  IN  [f \in 1..n |-> IF last(f) = {} THEN 0
                      ELSE all[CHOOSE k \in last(f) : \A j \in last(f) : all[j][3] <= all[k][3]][3]]

GoodOutput(sizes, n, ranks) ==
  /\ Len(ranks) = Len(sizes)
  /\ \A r \in DOMAIN sizes : SizeOf(ranks[r]) = sizes[r]
  /\ LET files == FileSizes(n, ranks)
     IN  /\ Tiles(files, ranks)
         /\ \A f \in 1..n : Fair(Total(sizes), n, files[f])

(***************************************************************************)
(* The algorithm: a cursor that goes once through the files.               *)
(***************************************************************************)
VARIABLES kind, files, shares, rank, need, file, pos, out

vars == <<kind, files, shares, rank, need, file, pos, out>>

Lists(n, m) == UNION { [1..k -> 0..m] : k \in 1..n }

Init ==
  /\ \E s \in Lists(MaxFiles, MaxEntries), n \in 1..MaxParts :
       \/ kind = "input"  /\ files = s /\ shares = Parts(Total(s), n)
       \/ kind = "output" /\ shares = s /\ files = Parts(Total(s), n)
  /\ rank = 1 /\ need = shares[1] /\ file = 1 /\ pos = 0
  /\ out = [r \in 1..Len(shares) |-> <<>>]

(* The file is used up: go to the next one. *)
NextFile ==
  /\ need > 0 /\ pos = files[file]
  /\ file' = file + 1 /\ pos' = 0
  /\ UNCHANGED <<kind, files, shares, rank, need, out>>

(* As much of the current file as there is and as is needed. *)
Take ==
  /\ need > 0 /\ pos < files[file]
  /\ LET n == IF need < files[file] - pos THEN need ELSE files[file] - pos
     IN  /\ out' = [out EXCEPT ![rank] = Append(@, <<file - 1, pos, pos + n>>)]
         /\ pos' = pos + n
         /\ need' = need - n
  /\ UNCHANGED <<kind, files, shares, rank, file>>

NextRank ==
  /\ need = 0 /\ rank < Len(shares)
  /\ rank' = rank + 1 /\ need' = shares[rank + 1]
  /\ UNCHANGED <<kind, files, shares, file, pos, out>>

Done == need = 0 /\ rank = Len(shares)

Next == NextFile \/ Take \/ NextRank \/ (Done /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InFiles == file <= Len(files) /\ pos <= files[file]

Good ==
  Done => IF kind = "input" THEN GoodInput(files, Len(shares), out)
          ELSE GoodOutput(shares, Len(files), out)

(* No entry is given to two ranks, at any point. *)
Disjoint ==
  \A a, b \in DOMAIN out : \A i \in DOMAIN out[a], j \in DOMAIN out[b] :
    (a # b \/ i # j) =>
      LET x == out[a][i]
          y == out[b][j]
      IN  x[1] # y[1] \/ x[3] <= y[2] \/ y[3] <= x[2]

Finishes == <>Done
=============================================================================
