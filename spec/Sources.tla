------------------------------ MODULE Sources ------------------------------
(* Sources of radiation become source terms of particles. Every rank knows     *)
(* some of the sources and has some of the particles, in any distribution       *)
(* (also none). The ranks gather all sources, each finds the particle of its     *)
(* own that is nearest to every source, the distances are gathered, and the      *)
(* rank with the nearest of all particles (the first of them if there are        *)
(* several) adds the source to it. Both gatherings are collective: nobody        *)
(* leaves before all have entered. Positions are places on a line.               *)
(* With OwnerOnly the rank that owns the position of the source decides          *)
(* alone; then the particle need not be the nearest one (Nearest fails), and      *)
(* a source can be lost if this rank has no particles (Conserved fails).         *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Ranks, Last, MaxParticles, MaxSources, OwnerOnly
VARIABLES owner,    \* particle (its place) -> rank
          sources,  \* sequence of [at, home]
          pc, known, dist,  \* per rank
          terms     \* particle -> sources added, a sequence
vars == <<owner, sources, pc, known, dist, terms>>

Far == 1000
R == 0..Ranks-1
Abs(x) == IF x < 0 THEN -x ELSE x
Mine(r) == { p \in DOMAIN owner : owner[p] = r }
Distance(ps, x) == IF ps = {} THEN Far
                   ELSE CHOOSE d \in 0..Last : (\E p \in ps : Abs(p - x) = d) /\ (\A p \in ps : Abs(p - x) >= d)
(* Which of the equally near particles of a rank is taken is left open.          *)
NearestOf(ps, x) == { p \in ps : Abs(p - x) = Distance(ps, x) }
Winner(ds, s) == CHOOSE r \in R : (\A q \in R : ds[q][s] >= ds[r][s]) /\ (\A q \in 0..r-1 : ds[q][s] > ds[r][s])
(* A domain decomposition of the line.                                           *)
OwnerOf(x) == (x * Ranks) \div (Last + 1)

Init ==
  /\ \E P \in SUBSET (0..Last) : P # {} /\ Cardinality(P) <= MaxParticles /\ owner \in [P -> R]
  /\ OwnerOnly => \A p \in DOMAIN owner : owner[p] = OwnerOf(p)
  /\ \E m \in 0..MaxSources : sources \in [1..m -> [at : 0..Last, home : R]]
  /\ pc = [r \in R |-> "start"] /\ known = [r \in R |-> <<>>] /\ dist = [r \in R |-> <<>>]
  /\ terms = [p \in DOMAIN owner |-> <<>>]

Go(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
At(r, S) == pc[r] \in S
Enter(r) == Go(r, "start", "gather") /\ UNCHANGED <<owner, sources, known, dist, terms>>
(* All sources in the order of the ranks: the numbers stand for them.            *)
Order == SortSeq([k \in DOMAIN sources |-> k],
                 LAMBDA i, j : sources[i].home < sources[j].home \/ (sources[i].home = sources[j].home /\ i < j))
Learn(r) ==
  /\ \A q \in R : ~At(q, {"start"})
  /\ Go(r, "gather", "search")
  /\ known' = [known EXCEPT ![r] = Order]
  /\ UNCHANGED <<owner, sources, dist, terms>>
Search(r) ==
  /\ Go(r, "search", "compare")
  /\ dist' = [dist EXCEPT ![r] = [k \in DOMAIN known[r] |-> Distance(Mine(r), sources[known[r][k]].at)]]
  /\ UNCHANGED <<owner, sources, known, terms>>
Compare(r) ==
  /\ \A q \in R : ~At(q, {"start", "gather", "search"})
  /\ Go(r, "compare", "add")
  /\ UNCHANGED <<owner, sources, known, dist, terms>>
IsMine(r, k) == IF OwnerOnly THEN OwnerOf(sources[known[r][k]].at) = r ELSE Winner(dist, k) = r
Taken(r) == { k \in DOMAIN known[r] : IsMine(r, k) /\ Mine(r) # {} }
Add(r) ==
  /\ Go(r, "add", "done")
  /\ \E f \in [Taken(r) -> DOMAIN owner] :
       /\ \A k \in Taken(r) : f[k] \in NearestOf(Mine(r), sources[known[r][k]].at)
       /\ terms' = [p \in DOMAIN owner |->
                     terms[p] \o SelectSeq(known[r], LAMBDA s : \E k \in Taken(r) : known[r][k] = s /\ f[k] = p)]
  /\ UNCHANGED <<owner, sources, known, dist>>
Done == \A r \in R : pc[r] = "done"
Next == (\E r \in R : Enter(r) \/ Learn(r) \/ Search(r) \/ Compare(r) \/ Add(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Count(s) == Cardinality({ <<p, k>> \in (DOMAIN owner) \X (1..MaxSources) : k <= Len(terms[p]) /\ terms[p][k] = s })
AtMostOnce == \A s \in DOMAIN sources : Count(s) <= 1
Conserved == Done => \A s \in DOMAIN sources : Count(s) = 1
Nearest == \A p \in DOMAIN owner : \A k \in DOMAIN terms[p] :
             p \in NearestOf(DOMAIN owner, sources[terms[p][k]].at)
Same == \A q, r \in R : known[q] # <<>> /\ known[r] # <<>> => known[q] = known[r]
Ends == <>Done
=============================================================================
