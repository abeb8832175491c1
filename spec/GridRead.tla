------------------------------ MODULE GridRead ------------------------------
(* A grid that another program has written: a list of connections between       *)
(* pairs of particles, which all ranks read. A rank takes those in which one of   *)
(* its own particles takes part. It has to learn where the others are: it asks     *)
(* all ranks, Chunk particles at a time, and all ranks ask equally often, since     *)
(* asking and answering are collective (nobody leaves before all have entered):     *)
(* a rank that has nothing left to ask still takes part. Connections can be          *)
(* invalid (then nobody takes them, and what they name need not exist), and one      *)
(* of the two sides can be an image beyond the boundary of the box.                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Ranks, Particles, MaxConnections, Chunk
VARIABLES owner,        \* particle -> rank
          connections,  \* sequence of [a, b, kind]
          pc, turn, missing, asked, known, cells, haloes
vars == <<owner, connections, pc, turn, missing, asked, known, cells, haloes>>

R == 0..Ranks-1
P == 1..Particles
Nobody == Particles + 1
Kinds == {"plain", "image a", "image b", "invalid"}
Init ==
  /\ owner \in [P -> R]
  /\ \E m \in 0..MaxConnections : connections \in [1..m -> { c \in [a : P, b : P \cup {Nobody}, kind : Kinds] :
        /\ c.a # c.b /\ (c.kind = "plain" => c.a < c.b) /\ (c.b = Nobody <=> c.kind = "invalid") }]
  /\ pc = [r \in R |-> "read"] /\ turn = [r \in R |-> 0]
  /\ missing = [r \in R |-> {}] /\ asked = [r \in R |-> {}]
  /\ known = [r \in R |-> {}] /\ cells = [p \in P |-> {}] /\ haloes = [r \in R |-> {}]

Mine(r) == { p \in P : owner[p] = r }
Go(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
Relevant(r) == { k \in DOMAIN connections : connections[k].kind # "invalid" /\ {connections[k].a, connections[k].b} \cap Mine(r) # {} }
Read(r) ==
  /\ Go(r, "read", "count")
  /\ missing' = [missing EXCEPT ![r] = UNION { {connections[k].a, connections[k].b} : k \in Relevant(r) } \ Mine(r)]
  /\ known' = [known EXCEPT ![r] = Mine(r)]
  /\ UNCHANGED <<owner, connections, turn, asked, cells, haloes>>
(* How often the rank with the most to ask has to ask.                              *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Count(r) ==
  /\ \A q \in R : pc[q] # "read"
  /\ Go(r, "count", "ask")
  /\ turn' = [turn EXCEPT ![r] = MaxOf({ (Cardinality({ x \in UNION { {connections[k].a, connections[k].b} : k \in Relevant(q) } : owner[x] # q })
                                            + Chunk - 1) \div Chunk : q \in R })]
  /\ UNCHANGED <<owner, connections, missing, asked, known, cells, haloes>>
Ask(r) ==
  /\ turn[r] > 0 /\ Go(r, "ask", "answer")
  /\ \E S \in SUBSET missing[r] :
       /\ Cardinality(S) = IF Cardinality(missing[r]) < Chunk THEN Cardinality(missing[r]) ELSE Chunk
       /\ asked' = [asked EXCEPT ![r] = S] /\ missing' = [missing EXCEPT ![r] = @ \ S]
  /\ UNCHANGED <<owner, connections, turn, known, cells, haloes>>
(* All are in the same turn when this rank has the questions of all.                *)
Behind(q, r) == turn[q] > turn[r]
Answer(r) ==
  /\ \A q \in R : ~Behind(q, r) /\ (turn[q] = turn[r] => pc[q] # "ask")
  /\ Go(r, "answer", "learn")
  /\ UNCHANGED <<owner, connections, turn, missing, asked, known, cells, haloes>>
Learn(r) ==
  /\ \A q \in R : ~Behind(q, r) /\ (turn[q] = turn[r] => pc[q] \notin {"ask", "answer"})
  /\ Go(r, "learn", "ask")
  /\ known' = [known EXCEPT ![r] = @ \cup { p \in asked[r] : p \in P }]
  /\ turn' = [turn EXCEPT ![r] = @ - 1]
  /\ UNCHANGED <<owner, connections, missing, asked, cells, haloes>>
(* The neighbours that a connection gives to a particle: the connection, the side     *)
(* the particle is on, and what is on the other side.                                 *)
Other(p, q) == IF owner[p] = owner[q] THEN "local" ELSE "remote"
Gives(p, k) == LET c == connections[k] IN
   (IF c.a = p /\ c.kind # "image a" THEN { <<k, "a", IF c.kind = "image b" THEN "boundary" ELSE Other(p, c.b)>> } ELSE {}) \cup
   (IF c.b = p /\ c.kind # "image b" THEN { <<k, "b", IF c.kind = "image a" THEN "boundary" ELSE Other(p, c.a)>> } ELSE {})
Build(r) ==
  /\ turn[r] = 0 /\ Go(r, "ask", "done")
  /\ cells' = [p \in P |-> IF owner[p] = r THEN UNION { Gives(p, k) : k \in Relevant(r) } ELSE cells[p]]
  /\ haloes' = [haloes EXCEPT ![r] = known[r] \ Mine(r)]
  /\ UNCHANGED <<owner, connections, turn, missing, asked, known>>
Done == (\A r \in R : pc[r] = "done") /\ UNCHANGED vars
Next == (\E r \in R : Read(r) \/ Count(r) \/ Ask(r) \/ Answer(r) \/ Learn(r) \/ Build(r)) \/ Done
Spec == Init /\ [][Next]_vars

(* Whoever builds knows where all are that it needs.                                   *)
AllKnown == \A r \in R : pc[r] = "done" =>
  \A k \in Relevant(r) : {connections[k].a, connections[k].b} \subseteq known[r]
(* Every neighbour is one for both sides, across ranks too; remote ones are haloes.     *)
Symmetric == (\A r \in R : pc[r] = "done") =>
  /\ \A k \in DOMAIN connections : LET c == connections[k] IN c.kind = "plain" =>
       <<k, "a", Other(c.a, c.b)>> \in cells[c.a] /\ <<k, "b", Other(c.b, c.a)>> \in cells[c.b]
  /\ \A p \in P : \A n \in cells[p] : LET c == connections[n[1]] IN
       /\ c.kind # "invalid"
       /\ n[3] = "remote" => (IF n[2] = "a" THEN c.b ELSE c.a) \in haloes[owner[p]]
  /\ \A r \in R : haloes[r] \cap Mine(r) = {}
Inv == AllKnown /\ Symmetric
=============================================================================
