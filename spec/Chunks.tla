------------------------------- MODULE Chunks -------------------------------
(* Work that is too much for one round is cut into chunks. As every round    *)
(* needs all ranks, all of them must come to the same number of chunks,      *)
(* however much each of them has.                                            *)
EXTENDS Integers, Sequences, FiniteSets

DivCeil(a, b) == (a + b - 1) \div b
MaxOfSet(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

Rounds(items, chunk) == MaxOfSet({ DivCeil(Len(items[r]), chunk) : r \in DOMAIN items })

(* items[r]: what r has; out[r]: its chunks *)
Good(items, chunk, out) ==
  /\ DOMAIN out = DOMAIN items
  /\ \A r \in DOMAIN items :
       /\ Len(out[r]) = Rounds(items, chunk)
       /\ Concat(out[r]) = items[r]
       /\ \A i \in DOMAIN out[r] : Len(out[r][i]) <= chunk

CONSTANTS N, MaxLen, MaxChunk
VARIABLES len, size, num, at, out
vars == <<len, size, num, at, out>>
Items == [r \in 1..N |-> [i \in 1..len[r] |-> 10 * r + i]]
Init == /\ len \in [1..N -> 0..MaxLen] /\ size \in 1..MaxChunk
        /\ num = -1 /\ at = [r \in 1..N |-> 0] /\ out = [r \in 1..N |-> <<>>]
(* The ranks agree on the largest of their numbers ... *)
Agree == /\ num = -1 /\ num' = Rounds(Items, size) /\ UNCHANGED <<len, size, at, out>>
(* ... and each goes through what it has, and then on with nothing. *)
Cut(r) == /\ num >= 0 /\ at[r] < num
          /\ at' = [at EXCEPT ![r] = @ + 1]
          /\ out' = [out EXCEPT ![r] = Append(@, SubSeq(Items[r], at[r] * size + 1,
                        IF (at[r] + 1) * size < len[r] THEN (at[r] + 1) * size ELSE len[r]))]
          /\ UNCHANGED <<len, size, num>>
Done == num >= 0 /\ \A r \in 1..N : at[r] = num
Next == Agree \/ (\E r \in 1..N : Cut(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
AllGood == Done => Good(Items, size, out)
=============================================================================
