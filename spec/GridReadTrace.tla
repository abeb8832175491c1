---------------------------- MODULE GridReadTrace ----------------------------
(* The cells that the real code makes of a list of connections. Particles are    *)
(* numbered as in the input; they are found by rank and index in the ranks.        *)
EXTENDS TraceLib, SequencesExt
VARIABLES l, run, got, haloes
vars == <<l, run, got, haloes>>
Rec == Trace[l]
Init == l = 1 /\ run = [ranks |-> 0] /\ got = <<>> /\ haloes = <<>>

Start == Rec.ev = "start" /\ run' = Rec /\ got' = <<>> /\ haloes' = <<>>
End ==
  /\ Rec.ev = "end"
  /\ Len(haloes) = Rec.rank
  /\ got' = got \o Rec.held /\ haloes' = Append(haloes, Rec.haloes)
  /\ UNCHANGED run
(* Types of connections: -1 or a flag for the boundary of the box is invalid, as     *)
(* is one between two images.                                                        *)
Bit(x, b) == (x \div b) % 2 = 1
ImageA(c) == Bit(c.type, 1)
ImageB(c) == Bit(c.type, 4)
Valid(c) == c.type # -1 /\ ~Bit(c.type, 2) /\ ~Bit(c.type, 8) /\ ~(ImageA(c) /\ ImageB(c))
Minus(v) == <<-v[1], -v[2], -v[3]>>
(* at: the place of a particle, <<rank, index>>.                                     *)
Sides(at) ==
  LET Other(p, q) == [kind |-> IF at[p][1] = at[q][1] THEN "local" ELSE "remote", id |-> at[q]]
      Boundary == [kind |-> "boundary", id |-> <<-1, -1>>]
      Side(k) == LET c == run.connections[k] IN
        IF ~Valid(c) THEN <<>> ELSE
          (IF ImageA(c) THEN <<>> ELSE <<[of |-> c.a, area |-> c.area, normal |-> Minus(c.normal),
                                          to |-> IF ImageB(c) THEN Boundary ELSE Other(c.a, c.b)]>>) \o
          (IF ImageB(c) THEN <<>> ELSE <<[of |-> c.b, area |-> c.area, normal |-> c.normal,
                                          to |-> IF ImageA(c) THEN Boundary ELSE Other(c.b, c.a)]>>)
  IN  FoldLeft(LAMBDA a, k : a \o Side(k), <<>>, [k \in DOMAIN run.connections |-> k])
Times(x, s) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Times(s[i], s) = Times(s[i], t)
NeighbourOf(n) == [area |-> n.area, normal |-> n.normal, to |-> [kind |-> n.kind, id |-> n.id]]
CellOK(h, all) ==
  /\ h.volume = run.sizes[h.tag] * run.sizes[h.tag] * run.sizes[h.tag] /\ h.size = run.sizes[h.tag]
  /\ LET mine == SelectSeq(all, LAMBDA s : s.of = h.tag)
     IN  SameBag([k \in DOMAIN h.neighbours |-> NeighbourOf(h.neighbours[k])],
                 [k \in DOMAIN mine |-> [area |-> mine[k].area, normal |-> mine[k].normal, to |-> mine[k].to]])
(* Haloes stand for the particles of other ranks next to those of this rank, once      *)
(* each; those of connections to images may be among them.                             *)
HaloesOK(r, all, at) ==
  LET hs == haloes[r + 1]
      needed == { all[k].to.id : k \in { k \in DOMAIN all : at[all[k].of][1] = r /\ all[k].to.kind = "remote" } }
      named == UNION { { at[c.a], at[c.b] } : c \in { run.connections[k] : k \in { k \in DOMAIN run.connections :
                   Valid(run.connections[k]) /\ r \in { at[run.connections[k].a][1], at[run.connections[k].b][1] } } } }
  IN  /\ \A i, j \in DOMAIN hs : i # j => hs[i].id # hs[j].id
      /\ \A i \in DOMAIN hs : hs[i].rank = hs[i].id[1] /\ hs[i].id[1] # r /\ hs[i].id \in named
      /\ needed \subseteq { hs[i].id : i \in DOMAIN hs }
Done ==
  /\ Rec.ev = "done" /\ Rec.leftover = 0 /\ Rec.unfinished = 0
  /\ Len(got) = Len(run.sizes) /\ { got[k].tag : k \in DOMAIN got } = DOMAIN run.sizes /\ Len(haloes) = run.ranks
  /\ \A i, j \in DOMAIN got : i # j => got[i].id # got[j].id
  /\ \E at \in {TLCEval([t \in DOMAIN run.sizes |-> got[CHOOSE k \in DOMAIN got : got[k].tag = t].id])} :
     \E all \in {TLCEval(Sides(at))} :
       /\ (\A k \in DOMAIN got : CellOK(got[k], all)) = TRUE
       /\ (\A r \in 0..run.ranks-1 : HaloesOK(r, all, at)) = TRUE
  /\ UNCHANGED <<run, got, haloes>>
Next == l <= Len(Trace) /\ (Start \/ End \/ Done) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
