----------------------------- MODULE HaloSearch -----------------------------
(* How the ranks find the particles of other ranks, and the periodic images   *)
(* of all particles, that matter for their part of the grid. In one dimension *)
(* a simplex is an interval between two neighbouring points and its           *)
(* circumsphere is the interval itself. Each rank starts with its own         *)
(* particles and looks around each of its intervals, with a growing radius,   *)
(* until the radius is that of the interval; all ranks go on until none has   *)
(* an undecided interval left.                                                *)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt, TLC

CONSTANTS Length,    \* of the periodic box
          Ranks,     \* number of ranks
          Particles, \* number of particles
          Start,     \* radius of the first search, in half units
          Chunk,     \* at most so many searches of a rank per round
          Refuse     \* whether a search that reaches two images of a particle stops everything, as the code does
VARIABLES pos,       \* position of each particle
          owner,     \* rank of each particle
          known,     \* per rank: the points of its triangulation <<particle, wrap>>
          undecided, \* per rank: list of intervals <<point, point>> with the radius of the last search
          sent,      \* per rank: what it has been sent (or found itself): <<particle, wrap>>
          state      \* "run", "done", "refused", "twice"
vars == <<pos, owner, known, undecided, sent, state>>

R == 0..(Ranks - 1)
P == 1..Particles
(* The ends of the outer simplex are further away than any image. *)
Low == <<0, -2>>
High == <<0, 2>>
At(x) == IF x[1] = 0 THEN 3 * x[2] * Length ELSE pos[x[1]] + x[2] * Length
(* twice the distance of a point from a place given in half units *)
Dist(x, c) == IF 2 * At(x) >= c THEN 2 * At(x) - c ELSE c - 2 * At(x)
Least(a, b) == IF a < b THEN a ELSE b

Inner(r, x) == x[1] # 0 /\ x[2] = 0 /\ owner[x[1]] = r
Above(x, all) == { z \in all : At(z) > At(x) }
Lowest(zs) == CHOOSE z \in zs : \A y \in zs : At(z) <= At(y)
Intervals(pts) == TLCEval({ <<x, Lowest(Above(x, pts \cup {High}))>> : x \in pts \cup {Low} })
Relevant(r, pts) == { i \in Intervals(pts) : Inner(r, i[1]) \/ Inner(r, i[2]) }

Need(i) == At(i[2]) - At(i[1])                       \* in half units
Radius(u) == IF u.radius = 0 THEN Least(Need(u.i), Start) ELSE Least(2 * u.radius, Need(u.i))
Centre(r, u) == IF Radius(u) >= Need(u.i) THEN At(u.i[1]) + At(u.i[2])
                ELSE IF Inner(r, u.i[1]) THEN 2 * At(u.i[1]) ELSE 2 * At(u.i[2])

Images == P \X {-1, 0, 1}
Found(r, u) == 
  UNION { { x \in Images : Dist(x, q[1]) <= q[2] } : q \in {TLCEval(<<Centre(r, u), Radius(u)>>)} }
TwoImages(r, u) == \E x, y \in Found(r, u) : x[1] = y[1] /\ x[2] # y[2]

Init ==
  /\ pos \in { p \in [P -> 0..(Length - 1)] : \A i, j \in P : i < j => p[i] < p[j] }
  /\ owner \in { o \in [P -> R] : \A r \in R : \E i \in P : o[i] = r }
  /\ known = [r \in R |-> { <<i, 0>> : i \in { j \in P : owner[j] = r } }]
  /\ undecided = [r \in R |-> SetToSeq({ [i |-> i, radius |-> 0] : i \in Relevant(r, { <<j, 0>> : j \in { k \in P : owner[k] = r } }) })]
  /\ sent = [r \in R |-> {}]
  /\ state = "run"

(* What one rank does in a round with the first intervals of its list.        *)
Searches(r, here) == { u \in Range(SubSeq(undecided[r], 1, Least(Chunk, Len(undecided[r])))) : u.i \in here }
Step(r, here, now) ==
  LET new == (UNION { Found(r, u) : u \in now }) \ sent[r]
      haloes == { x \in new : ~Inner(r, x) }
      again == { [i |-> u.i, radius |-> Radius(u)] : u \in { v \in now : Radius(v) < Need(v.i) } }
      fresh == { [i |-> i, radius |-> 0] : i \in Relevant(r, known[r] \cup haloes) \ here }
      rest == SubSeq(undecided[r], Least(Chunk, Len(undecided[r])) + 1, Len(undecided[r]))
  IN  [known |-> known[r] \cup haloes, sent |-> sent[r] \cup new,
       twice |-> haloes \cap known[r] # {},
       refused |-> \E u \in now : TwoImages(r, u),
       undecided |-> rest \o SetToSeq(again) \o SetToSeq(fresh)]

(* One round of all ranks (they exchange requests and answers with all).      *)
Round ==
  /\ state = "run"
  /\ \E r \in R : undecided[r] # <<>>
  /\ \E here \in {TLCEval([r \in R |-> Intervals(known[r])])} :
     \E step \in {TLCEval([r \in R |-> Step(r, here[r], Searches(r, here[r]))])} :
       IF Refuse /\ \E r \in R : step[r].refused
       THEN state' = "refused" /\ UNCHANGED <<known, undecided, sent>>
       ELSE /\ state' = IF \E r \in R : step[r].twice THEN "twice" ELSE "run"
            /\ known' = [r \in R |-> step[r].known]
            /\ sent' = [r \in R |-> step[r].sent]
            /\ undecided' = [r \in R |-> step[r].undecided]
  /\ UNCHANGED <<pos, owner>>

Finish == /\ state = "run" /\ \A r \in R : undecided[r] = <<>>
          /\ state' = "done" /\ UNCHANGED <<pos, owner, known, undecided, sent>>

Next == Round \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* The points next to each own particle are those of the infinite periodic line. *)
RightNeighbours == state = "done" =>
  \A r \in R : \A i \in TLCEval(Relevant(r, known[r])) :
    /\ i[1][1] # 0 /\ i[2][1] # 0
    /\ ~\E x \in Images : At(i[1]) < At(x) /\ At(x) < At(i[2])
(* ... and the ranks agree about them. *)
Agree == state = "done" => \A r \in R : \A i \in TLCEval(Relevant(r, known[r])) :
  LET a == i[1]  b == i[2] IN
  \E j \in Relevant(owner[a[1]], known[owner[a[1]]]) :
    j[1] = <<a[1], 0>> /\ j[2] = <<b[1], b[2] - a[2]>>
NoneTwice == state # "twice"
(* Dense enough, no search reaches two images. *)
Dense == \A i \in P : LET q == IF i = Particles THEN pos[1] + Length ELSE pos[i + 1] IN q - pos[i] <= Length \div 4
NotRefused == Dense => state # "refused"
Ends == <>(state \in {"done", "refused"})
=============================================================================
