------------------------------- MODULE Reader -------------------------------
(* How a dataset that is spread over several files is read by several ranks.  *)
(* Each rank knows from the numbers of entries in the files which part is     *)
(* its own and reads it in chunks, file by file. Files are in units of their  *)
(* own (entries are multiplied by Unit[f]); a file whose dimension is not the *)
(* expected one is refused by whoever has a part of it.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFiles, MaxEntries, MaxRanks, MaxChunk
VARIABLES files, right, ranks, chunk, pos, read, refused
vars == <<files, right, ranks, chunk, pos, read, refused>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b

Total == Sum(files)
(* entry k of all files: its file, and its place in it *)
RECURSIVE Locate(_, _)
Locate(k, f) == IF k <= files[f] THEN <<f, k>> ELSE Locate(k - files[f], f + 1)
Value(k) == LET p == Locate(k, 1) IN <<p[1], p[2], p[1]>>    \* file, place, unit
All == [k \in 1..Total |-> Value(k)]

Share(r) == IF r < ranks THEN Total \div ranks ELSE Total - (ranks - 1) * (Total \div ranks)
First(r) == 1 + (r - 1) * (Total \div ranks)
Last(r) == First(r) + Share(r) - 1

Init ==
  /\ files \in UNION {[1..n -> 0..MaxEntries] : n \in 1..MaxFiles}
  /\ right \in [DOMAIN files -> BOOLEAN]
  /\ ranks \in 1..MaxRanks /\ chunk \in 1..MaxChunk
  /\ pos = [r \in 1..ranks |-> First(r)]
  /\ read = [r \in 1..ranks |-> <<>>]
  /\ refused = [r \in 1..ranks |-> FALSE]

(* The next chunk ends with the chunk size, the share or the file. *)
ReadChunk(r) ==
  /\ ~refused[r] /\ pos[r] <= Last(r)
  /\ LET p == Locate(pos[r], 1)
         start == pos[r] - p[2]                                 \* entries in the files before
         begin == IF First(r) > start THEN First(r) ELSE start + 1   \* start of the part in this file
         n == Min(Min(chunk, files[p[1]] - p[2] + 1), Last(r) - pos[r] + 1)
     IN  IF ~right[p[1]]
         THEN refused' = [refused EXCEPT ![r] = TRUE] /\ UNCHANGED <<pos, read>>
         ELSE /\ (pos[r] - begin) % chunk = 0
              /\ read' = [read EXCEPT ![r] = @ \o [i \in 1..n |-> <<p[1], p[2] + i - 1, p[1]>>]]
              /\ pos' = [pos EXCEPT ![r] = @ + n]
              /\ UNCHANGED refused
  /\ UNCHANGED <<files, right, ranks, chunk>>

Done(r) == refused[r] \/ pos[r] > Last(r)
AllDone == \A r \in 1..ranks : Done(r)
Next == (\E r \in 1..ranks : ReadChunk(r)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The chunks of a rank are a part of the whole, in order. *)
InOrder == \A r \in 1..ranks : \A i \in DOMAIN read[r] : read[r][i] = All[First(r) + i - 1]
(* If nothing is refused the ranks have everything, each entry once. *)
Complete == AllDone /\ (\A r \in 1..ranks : ~refused[r]) => Join(read) = All
(* Refused is what it is wrong to read, and nothing else. *)
Refusal ==
  \A r \in 1..ranks : AllDone =>
    (refused[r] <=> \E k \in First(r)..Last(r) : ~right[Locate(k, 1)[1]])
Ends == <>AllDone
=============================================================================
