---------------------------- MODULE DataByRankMC ----------------------------
(* Exploration of the design of DataByRank: all operations in all orders.    *)
EXTENDS DataByRank
CONSTANTS NumRanks, Elements, MaxLen
VARIABLE last    \* the operation that was done last, and on which rank

RankSet == 0..(NumRanks - 1)
Vals == UNION { [1..k -> Elements] : k \in 0..1 }

MCInit == Init /\ last = <<"none", -1>>

MCNext ==
  \/ (Iter \/ Size) /\ last' = <<"read", -1>>
  \/ (Empty \/ Drain) /\ last' = <<"clear", -1>>
  \/ \E v \in Vals, me \in RankSet : (Others(NumRanks, me, v) \/ All(NumRanks, v)) /\ last' = <<"make", -1>>
  \/ \E r, s \in RankSet, v, w \in Vals : FromItems(<<<<r, v>>, <<s, w>>>>) /\ last' = <<"make", -1>>
  \/ \E r \in RankSet : Get(r) /\ last' = <<"read", r>>
  \/ \E r \in RankSet : Remove(r) /\ last' = <<"remove", r>>
  \/ \E r \in RankSet, v \in Vals : Insert(r, v) /\ last' = <<"insert", r>>
  \/ \E r \in RankSet, v \in Vals : Set(r, v) /\ last' = <<"set", r>>
  \/ \E r \in RankSet, x \in Elements : Push(r, x) /\ last' = <<"push", r>>
  \/ \E x \in Elements : PushAll(x) /\ last' = <<"pushall", -1>>

MCSpec == MCInit /\ [][MCNext]_<<m, res, last>>
Bounded == \A r \in Ranks : Len(m[r]) <= MaxLen
View == <<m, last>>

OnlyRanks == Ranks \subseteq RankSet
(* Looking does not change anything; an operation on one rank leaves the others alone. *)
ReadsAreSilent == [][last'[1] = "read" => m' = m]_<<m, res, last>>
Local ==
  [][last'[2] >= 0 =>
        \A s \in RankSet \ {last'[2]} : /\ (s \in DOMAIN m) <=> (s \in DOMAIN m')
                                        /\ s \in DOMAIN m => m[s] = m'[s]]_<<m, res, last>>
RemovedIsGone == [][last'[1] = "remove" => last'[2] \notin DOMAIN m']_<<m, res, last>>
SetKeepsKeys == [][last'[1] \in {"set", "push", "pushall"} => DOMAIN m' = DOMAIN m]_<<m, res, last>>
=============================================================================
