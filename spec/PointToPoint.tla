---------------------------- MODULE PointToPoint ----------------------------
(* Messages from rank to rank. Every message has a class (in the code: the   *)
(* type that is sent, or a tag that was given explicitly); receivers ask for *)
(* a sender and a class. Messages of one class between two ranks arrive in   *)
(* order, each exactly once; classes do not get into each other's way.       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES wire,    \* wire[<<p, q>>]: what p has sent to q and q has not taken yet: <<class, data>>
          history, \* history[<<p, q, c>>]: everything p ever sent to q in class c
          taken    \* taken[<<p, q, c>>]: everything q ever got from p in class c
vars == <<wire, history, taken>>

Pairs(R) == R \X R
Start(R, C) ==
  /\ wire' = [x \in R \X R |-> <<>>]
  /\ history' = [x \in R \X R \X C |-> <<>>]
  /\ taken' = [x \in R \X R \X C |-> <<>>]

Send(p, q, c, data) ==
  /\ wire' = [wire EXCEPT ![<<p, q>>] = Append(@, <<c, data>>)]
  /\ history' = [history EXCEPT ![<<p, q, c>>] = Append(@, data)]
  /\ UNCHANGED taken

(* The first of the class, even if others are in front of it. *)
Candidates(p, q, c) == { i \in DOMAIN wire[<<p, q>>] : wire[<<p, q>>][i][1] = c }
Receive(q, p, c, data) ==
  /\ Candidates(p, q, c) # {}
  /\ LET i == CHOOSE x \in Candidates(p, q, c) : \A y \in Candidates(p, q, c) : x <= y
         w == wire[<<p, q>>]
     IN  /\ data = w[i][2]
         /\ wire' = [wire EXCEPT ![<<p, q>>] = SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))]
         /\ taken' = [taken EXCEPT ![<<p, q, c>>] = Append(@, data)]
  /\ UNCHANGED history

AllTaken == \A x \in DOMAIN wire : wire[x] = <<>>

CONSTANTS Ranks, Classes, MaxMessages
Init ==
  /\ wire = [x \in Ranks \X Ranks |-> <<>>]
  /\ history = [x \in Ranks \X Ranks \X Classes |-> <<>>]
  /\ taken = [x \in Ranks \X Ranks \X Classes |-> <<>>]
Count(f) == LET RECURSIVE sum(_)
                sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(f[x]) + sum(S \ {x})
            IN sum(DOMAIN f)
Next ==
  \E p, q \in Ranks, c \in Classes :
    \/ Count(history) < MaxMessages /\ Send(p, q, c, Count(history) + 1)
    \/ \E d \in 1..MaxMessages : Receive(q, p, c, d)
Spec == Init /\ [][Next]_vars

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
InOrderOnce == \A x \in DOMAIN taken : IsPrefix(taken[x], history[x])
NothingLost == AllTaken => taken = history
(* What was sent can be received, whatever else is on the wire. *)
Reachable == \A p, q \in Ranks, c \in Classes :
               Len(taken[<<p, q, c>>]) < Len(history[<<p, q, c>>]) => Candidates(p, q, c) # {}
=============================================================================
