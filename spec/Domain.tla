------------------------------- MODULE Domain -------------------------------
(* The start of a simulation on several ranks, from the particles as they    *)
(* were read to the particle ids.                                            *)
(*                                                                           *)
(*  search:   all ranks together look for the keys at which the domain is    *)
(*            cut. For each cut the interval of keys is halved again and     *)
(*            again; each time the ranks add up how many of their particles  *)
(*            are between the start of the segment and the key in question.  *)
(*  exchange: the particles that belong elsewhere leave. First the numbers   *)
(*            of particles are exchanged, and the receiver makes as many     *)
(*            empty ones; then follow the components, one kind after the     *)
(*            other, which the receiver hands out in the order of arrival.   *)
(*  ids:      every rank numbers what it has.                                *)
(*                                                                           *)
(* Ranks run at their own pace; a sum is known once all have contributed,    *)
(* and messages between two ranks stay in order.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,            \* number of ranks
          P,            \* number of particles
          MaxKey,       \* keys are 0..MaxKey
          MaxDepth,     \* how often an interval is halved at most
          C,            \* number of components
          Distinct      \* whether no two particles share a key

Ranks == 1..N
Particles == 1..P
Keys == 0..MaxKey

VARIABLES home, key,    \* where the particles are read, and their keys
          search,       \* by rank: the state of the search
          contrib,      \* by round of the search: what the ranks contributed
          out,          \* by rank: the particles that leave, by target
          chan,         \* messages in transit
          step,         \* by rank: exchange steps sent and received
          ents,         \* by rank: the particles it has: a sequence of components
          spawned,      \* by rank, by source: which of its particles come from there
          ids           \* by rank: the ids it gave

vars == <<home, key, search, contrib, out, chan, step, ents, spawned, ids>>

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE
                                       IN  f[x] + SumOver(S \ {x}, f)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

MinKey == MinOf({ key[p] : p \in Particles })
LastKey == MaxOf({ key[p] : p \in Particles })
Share == P \div N

(* The search counts both ends of the interval. *)
LocalLoad(r, a, b) == Cardinality({ p \in Particles : home[p] = r /\ key[p] >= a /\ key[p] <= b })

Mid(s) == s.lo + (s.hi - s.lo) \div 2

Init ==
  /\ home \in [Particles -> Ranks]
  /\ \A r \in Ranks : \E p \in Particles : home[p] = r
  /\ key \in [Particles -> Keys]
  /\ \A p \in 1..(P - 1) : IF Distinct THEN key[p] < key[p + 1] ELSE key[p] <= key[p + 1]
  /\ search = [r \in Ranks |-> [cuts |-> <<>>, start |-> MinKey, lo |-> MinKey, hi |-> LastKey,
                                depth |-> 0, round |-> 1, waiting |-> FALSE]]
  /\ contrib = << >>
  /\ out = [r \in Ranks |-> [t \in Ranks |-> <<>>]]
  /\ chan = [f \in Ranks |-> [t \in Ranks |-> <<>>]]
  /\ step = [r \in Ranks |-> [sent |-> -1, got |-> -1]]
  /\ ents = [r \in Ranks |-> <<>>]
  /\ spawned = [r \in Ranks |-> [f \in Ranks |-> <<>>]]
  /\ ids = [r \in Ranks |-> <<>>]

Searching(r) == Len(search[r].cuts) < N - 1

Contribute(r) ==
  LET s == search[r]
      v == LocalLoad(r, s.start, Mid(s))
  IN /\ Searching(r) /\ ~s.waiting
     /\ search' = [search EXCEPT ![r].waiting = TRUE]
     /\ contrib' = IF s.round > Len(contrib)
                   THEN Append(contrib, [q \in Ranks |-> IF q = r THEN v ELSE -1])
                   ELSE [contrib EXCEPT ![s.round][r] = v]
     /\ UNCHANGED <<home, key, out, chan, step, ents, spawned, ids>>

Conclude(r) ==
  LET s == search[r]
      load == SumOver(Ranks, contrib[s.round])
      found == s.depth = MaxDepth \/ load = Share
      m == Mid(s)
      next == IF found
              THEN [s EXCEPT !.cuts = Append(s.cuts, m), !.start = m, !.lo = m, !.hi = LastKey,
                             !.depth = 0]
              ELSE IF load < Share THEN [s EXCEPT !.lo = m, !.depth = s.depth + 1]
                                   ELSE [s EXCEPT !.hi = m, !.depth = s.depth + 1]
  IN /\ Searching(r) /\ s.waiting
     /\ \A q \in Ranks : contrib[s.round][q] # -1
     /\ search' = [search EXCEPT ![r] = [next EXCEPT !.round = s.round + 1, !.waiting = FALSE]]
     /\ UNCHANGED <<home, key, contrib, out, chan, step, ents, spawned, ids>>

(* A particle belongs to the rank after the last cut that is not above it. *)
Owner(cuts, k) == 1 + Cardinality({ i \in DOMAIN cuts : cuts[i] <= k })

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o ToSeq(S \ {x})

SetOutgoing(r) ==
  LET mine == { p \in Particles : home[p] = r }
      to(t) == { p \in mine : Owner(search[r].cuts, key[p]) = t }
  IN /\ ~Searching(r) /\ step[r].sent = -1
     /\ out' = [out EXCEPT ![r] = [t \in Ranks |-> IF t = r THEN <<>> ELSE ToSeq(to(t))]]
     /\ ents' = [ents EXCEPT ![r] = [i \in 1..Cardinality(to(r)) |-> [c \in 1..C |-> ToSeq(to(r))[i]]]]
     /\ step' = [step EXCEPT ![r] = [sent |-> 0, got |-> 0]]
     /\ UNCHANGED <<home, key, search, contrib, chan, spawned, ids>>

(* Step 0 carries the numbers, step c component c. *)
Message(r, t, s) == [step |-> s, data |-> IF s = 0 THEN <<Len(out[r][t])>> ELSE out[r][t]]

Send(r) ==
  LET s == step[r].sent
  IN /\ s >= 0 /\ s <= C /\ step[r].got = s
     /\ chan' = [chan EXCEPT ![r] = [t \in Ranks |-> IF t = r THEN <<>>
                                                     ELSE Append(chan[r][t], Message(r, t, s))]]
     /\ step' = [step EXCEPT ![r].sent = s + 1]
     /\ UNCHANGED <<home, key, search, contrib, out, ents, spawned, ids>>

RECURSIVE Spawn(_, _)
Spawn(n, k) == IF k = 0 THEN <<>> ELSE <<n + 1>> \o Spawn(n + 1, k - 1)

RECURSIVE Before(_, _)
Before(r, f) == IF f = 0 THEN 0
                ELSE Before(r, f - 1) + (IF f = r THEN 0 ELSE Head(chan[f][r]).data[1])

Receive(r) ==
  LET s == step[r].got
      base == Len(ents[r])
  IN /\ step[r].sent = s + 1
     /\ \A f \in Ranks \ {r} : chan[f][r] # <<>>
     /\ chan' = [f \in Ranks |-> IF f = r THEN chan[f] ELSE [chan[f] EXCEPT ![r] = Tail(@)]]
     /\ IF s = 0
        THEN /\ spawned' = [spawned EXCEPT ![r] =
                  [f \in Ranks |-> IF f = r THEN <<>>
                                   ELSE Spawn(base + Before(r, f - 1), Head(chan[f][r]).data[1])]]
             /\ ents' = [ents EXCEPT ![r] = @ \o [i \in 1..Before(r, N) |-> [c \in 1..C |-> 0]]]
        ELSE /\ ents' = [ents EXCEPT ![r] =
                  [i \in DOMAIN @ |->
                     LET f == { g \in Ranks : \E k \in DOMAIN spawned[r][g] : spawned[r][g][k] = i }
                     IN  IF f = {} THEN @[i]
                         ELSE LET g == CHOOSE g \in f : TRUE
                                  k == CHOOSE k \in DOMAIN spawned[r][g] : spawned[r][g][k] = i
                              IN  [@[i] EXCEPT ![s] = Head(chan[g][r]).data[k]]]]
             /\ UNCHANGED spawned
     /\ step' = [step EXCEPT ![r].got = s + 1]
     /\ UNCHANGED <<home, key, search, contrib, out, ids>>

AssignIds(r) ==
  /\ step[r].got = C + 1 /\ ids[r] = <<>> /\ ents[r] # <<>>
  /\ ids' = [ids EXCEPT ![r] = [i \in DOMAIN ents[r] |-> <<r, i - 1>>]]
  /\ UNCHANGED <<home, key, search, contrib, out, chan, step, ents, spawned>>

Finished == \A r \in Ranks : step[r].got = C + 1 /\ (ids[r] # <<>> \/ ents[r] = <<>>)

Next == \/ \E r \in Ranks : Contribute(r) \/ Conclude(r) \/ SetOutgoing(r) \/ Send(r) \/ Receive(r)
                            \/ AssignIds(r)
        \/ Finished /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Ranks that have found as many cuts have found the same ones. *)
Agreement == \A a, b \in Ranks : \A i \in 1..(N - 1) :
  (i \in DOMAIN search[a].cuts /\ i \in DOMAIN search[b].cuts)
    => search[a].cuts[i] = search[b].cuts[i]

(* The next message is the one that is expected. *)
InStep == \A r, f \in Ranks :
  (r # f /\ step[r].got >= 0 /\ chan[f][r] # <<>>) => Head(chan[f][r]).step = step[r].got

Ascending == \A r \in Ranks : LET c == search[r].cuts IN
  \A i \in 1..(Len(c) - 1) : c[i] <= c[i + 1]

Cuts == search[1].cuts

(* What the particles carry and where they are at the end. *)
Conserved == Finished =>
  /\ \A r \in Ranks : \A i \in DOMAIN ents[r] : \A c \in 1..C : ents[r][i][c] = ents[r][i][1]
  /\ \A p \in Particles : Cardinality({ <<r, i>> \in Ranks \X (1..P) :
                                          i \in DOMAIN ents[r] /\ ents[r][i][1] = p }) = 1
  /\ \A r \in Ranks : \A i \in DOMAIN ents[r] : Owner(Cuts, key[ents[r][i][1]]) = r

(* Ranks hold neighbouring ranges of keys in their order. *)
Contiguous == Finished => \A a, b \in Ranks : a < b =>
  \A i \in DOMAIN ents[a], j \in DOMAIN ents[b] : key[ents[a][i][1]] < key[ents[b][j][1]]

Balanced == (Finished /\ Distinct /\ Share >= 1) => \A r \in Ranks :
  LET n == Len(ents[r])
  IN  IF r < N THEN n \in {Share - 1, Share}
      ELSE n >= Share /\ n <= P - (N - 1) * (Share - 1)

UniqueIds == Finished => \A a, b \in Ranks : \A i \in DOMAIN ids[a], j \in DOMAIN ids[b] :
  (ids[a][i] = ids[b][j]) => (a = b /\ i = j)
=============================================================================
