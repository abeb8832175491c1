----------------------------- MODULE DomainTrace -----------------------------
(* Runs of the real start of a simulation against what Domain.tla guarantees  *)
(* at its end. A "start" record has the particles, the keys the real code     *)
(* gives their positions (as sequences of digits) and the rank they are read  *)
(* on; each rank reports what it has at the end and what it thinks of the     *)
(* others.                                                                    *)
EXTENDS TraceLib

CONSTANT What        \* "particles", "owners" or "neighbourhood"

VARIABLES l, cur, ends

Rec == Trace[l]

Init == l = 1 /\ cur = <<>> /\ ends = <<>>

RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
              ELSE Less(Tail(a), Tail(b))

Of(p) == cur.particles[p]
Num == Len(cur.particles)
Share == Num \div cur.ranks
N == cur.ranks

-----------------------------------------------------------------------------
(* "particles": every particle is on exactly one rank, with all it carries,  *)
(* and has an id of its own.                                                 *)
Whole(e) ==
  /\ e.local = Len(e.particles)
  /\ \A i \in DOMAIN e.particles : LET p == e.particles[i] IN
       /\ p.tag \in 1..Num
       /\ p.second = 3 * p.tag /\ p.seven = p.tag % 7 /\ p.third = p.tag
       /\ p.pos = Of(p.tag).pos
       /\ p.id[1] = e.rank
       /\ p.mapped
  /\ e.mapsize = Len(e.particles)
  /\ Cardinality({ e.particles[i].id : i \in DOMAIN e.particles }) = Len(e.particles)
  /\ Cardinality({ e.particles[i].tag : i \in DOMAIN e.particles }) = Len(e.particles)

Tags(e) == { e.particles[i].tag : i \in DOMAIN e.particles }

AllThere ==
  /\ DOMAIN ends = 0..(N - 1)
  /\ UNION { Tags(ends[r]) : r \in 0..(N - 1) } = 1..Num
  /\ \A a, b \in 0..(N - 1) : a # b => Tags(ends[a]) \cap Tags(ends[b]) = {}

-----------------------------------------------------------------------------
(* "owners": all ranks agree on who owns what, particles are where they      *)
(* belong, ranks own neighbouring ranges of keys in their order, and the     *)
(* ranges hold equal shares.                                                 *)
Believes(e) ==
  /\ Len(e.owners) = Num
  /\ \A p \in 1..Num : e.owners[p] \in 0..(N - 1)
  /\ \A p \in Tags(e) : p \in 1..Num => e.owners[p] = e.rank

Settled ==
  /\ \A a, b \in 0..(N - 1) : ends[a].owners = ends[b].owners
  /\ \A p, q \in 1..Num : ends[0].owners[p] < ends[0].owners[q] => Less(Of(p).key, Of(q).key)
  /\ \A r \in 0..(N - 2) : Len(ends[r].particles) \in {Share - 1, Share}
  /\ Len(ends[N - 1].particles) <= Num - (N - 1) * (Share - 1)

-----------------------------------------------------------------------------
(* "neighbourhood": a rank that has a particle in a box (seen periodically)  *)
(* is among those that are asked about it, and the tree of a rank has its    *)
(* particles and finds those within a radius.                                *)
Inside(x, c, h) == \E w \in {-2, -1, 0, 1, 2} : Abs(x + w * cur.side - c) <= h
In(p, s) == \A k \in 1..3 : Inside(Of(p).pos[k], s.centre[k], s.half[k])

Gap(a, b) == LET d == Abs(a - b) IN IF 2 * d > cur.side THEN cur.side - d ELSE d
Dist2(a, b) == LET x == Gap(a[1], b[1]) y == Gap(a[2], b[2]) z == Gap(a[3], b[3])
               IN  x * x + y * y + z * z

Near(e) ==
  /\ \A i \in DOMAIN e.search : LET s == e.search[i] IN
       \A p \in 1..Num : In(p, s) => s.owned[e.owners[p] + 1]
  /\ Len(e.tree) = Len(e.particles) /\ Range(e.tree) = Tags(e)
  /\ \A i \in DOMAIN e.radius : LET s == e.radius[i] IN
       /\ Range(s.found) = { t \in Tags(e) : Dist2(Of(t).pos, s.centre) < s.radius * s.radius }
       /\ Len(s.found) = Cardinality(Range(s.found))

-----------------------------------------------------------------------------
Ok(e) == CASE What = "particles" -> Whole(e)
           [] What = "owners" -> Believes(e)
           [] What = "neighbourhood" -> Near(e)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ CASE Rec.ev = "start" -> cur' = Rec /\ ends' = <<>>
       [] Rec.ev = "end" ->
            /\ Rec.rank \notin DOMAIN ends
            /\ Ok(Rec)
            /\ ends' = (Rec.rank :> Rec) @@ ends
            /\ UNCHANGED cur
       [] Rec.ev = "done" ->
            /\ Rec.leftover = 0 /\ Rec.unfinished = 0
            /\ CASE What = "particles" -> AllThere
                 [] What = "owners" -> Settled
                 [] What = "neighbourhood" -> TRUE
            /\ UNCHANGED <<cur, ends>>
       [] OTHER -> FALSE

Spec == Init /\ [][Next]_<<l, cur, ends>>
=============================================================================
