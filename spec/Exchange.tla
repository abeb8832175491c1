------------------------------ MODULE Exchange ------------------------------
(* How the rounds are done with messages. A rank posts what it has for some  *)
(* of the others without waiting, sends an empty message to all those it has *)
(* nothing for, receives one message from each of the others in the order of *)
(* the ranks, and waits for its own messages to be taken. Messages between   *)
(* two ranks arrive in the order in which they were sent. A message may be   *)
(* buffered or may have to wait for its receiver; here all non-empty ones    *)
(* wait, which is the worst case (MPI promises no buffering).                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ranks, Rounds, Payloads, Nothing,
          Blocking    \* what if non-empty messages were sent in blocking mode?

VARIABLES pc,       \* "idle", "post", "fill", "receive", "wait"
          k,        \* k[r]: rounds entered
          have,     \* have[r]: what r has for each of the ranks in this round
          posted,   \* posted[r]: whom r has sent to in this round
          chan,     \* chan[p][r]: messages on their way from p to r
          got,      \* got[r]: what r has received in this round
          fin,      \* fin[r]: rounds left
          log       \* log[r]: what r had for the others, per round
vars == <<pc, k, have, posted, chan, got, fin, log>>

Others(r) == Ranks \ {r}
NoData == [r \in Ranks |-> Nothing]

Init ==
  /\ pc = [r \in Ranks |-> "idle"]
  /\ k = [r \in Ranks |-> 0] /\ fin = [r \in Ranks |-> 0]
  /\ have = [r \in Ranks |-> NoData]
  /\ posted = [r \in Ranks |-> {}]
  /\ chan = [p \in Ranks |-> [r \in Ranks |-> <<>>]]
  /\ got = [r \in Ranks |-> [p \in {} |-> Nothing]]
  /\ log = [r \in Ranks |-> <<>>]

Enter(r) ==
  /\ pc[r] = "idle" /\ k[r] < Rounds
  /\ \E d \in [Others(r) -> Payloads \cup {Nothing}] :
       LET data == [p \in Ranks |-> IF p = r THEN Nothing ELSE d[p]]
       IN  have' = [have EXCEPT ![r] = data] /\ log' = [log EXCEPT ![r] = Append(@, data)]
  /\ k' = [k EXCEPT ![r] = @ + 1]
  /\ posted' = [posted EXCEPT ![r] = {}]
  /\ got' = [got EXCEPT ![r] = [p \in {} |-> Nothing]]
  /\ pc' = [pc EXCEPT ![r] = "post"]
  /\ UNCHANGED <<chan, fin>>

ToPost(r) == { p \in Others(r) \ posted[r] : have[r][p] # Nothing }
ToFill(r) == Others(r) \ posted[r]
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Send(r, p) == /\ chan' = [chan EXCEPT ![r][p] = Append(@, have[r][p])]
              /\ posted' = [posted EXCEPT ![r] = @ \cup {p}]

(* A blocking send would not return before the message has been taken. *)
Taken(r) == \A p \in Others(r) : chan[r][p] = <<>> \/ \A i \in DOMAIN chan[r][p] : chan[r][p][i] = Nothing

Post(r) ==
  /\ pc[r] = "post"
  /\ Blocking => Taken(r)
  /\ IF ToPost(r) = {} THEN pc' = [pc EXCEPT ![r] = "fill"] /\ UNCHANGED <<chan, posted>>
     ELSE Send(r, First(ToPost(r))) /\ UNCHANGED pc
  /\ UNCHANGED <<k, have, got, fin, log>>

Fill(r) ==
  /\ pc[r] = "fill"
  /\ IF ToFill(r) = {} THEN pc' = [pc EXCEPT ![r] = "receive"] /\ UNCHANGED <<chan, posted>>
     ELSE Send(r, First(ToFill(r))) /\ UNCHANGED pc
  /\ UNCHANGED <<k, have, got, fin, log>>

Missing(r) == Others(r) \ DOMAIN got[r]

Receive(r) ==
  /\ pc[r] = "receive"
  /\ IF Missing(r) = {} THEN pc' = [pc EXCEPT ![r] = "wait"] /\ UNCHANGED <<chan, got>>
     ELSE LET p == First(Missing(r))
          IN  /\ chan[p][r] # <<>>
              /\ got' = [got EXCEPT ![r] = [q \in DOMAIN got[r] \cup {p} |->
                                              IF q = p THEN Head(chan[p][r]) ELSE got[r][q]]]
              /\ chan' = [chan EXCEPT ![p][r] = Tail(@)]
              /\ UNCHANGED pc
  /\ UNCHANGED <<k, have, posted, fin, log>>

Leave(r) ==
  /\ pc[r] = "wait"
  /\ Taken(r)
  /\ pc' = [pc EXCEPT ![r] = "idle"]
  /\ fin' = [fin EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<k, have, posted, chan, got, log>>

Done == \A r \in Ranks : pc[r] = "idle" /\ k[r] = Rounds

Next == (\E r \in Ranks : Enter(r) \/ Post(r) \/ Fill(r) \/ Receive(r) \/ Leave(r))
        \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A r \in Ranks : WF_vars(Enter(r) \/ Post(r) \/ Fill(r) \/ Receive(r) \/ Leave(r))

(* Properties *)
Abs == INSTANCE ExchangeRounds WITH ranks <- Ranks, round <- k, left <- fin, sent <- log
(* Every step is a step of the abstract exchange, or invisible there. *)
Refines ==
  [][\E r \in Ranks : \/ Abs!Begin(r, have'[r])
                      \/ Abs!End(r, got[r])]_<<k, fin, log>>
RightData == \A r \in Ranks : pc[r] = "wait" => \A p \in Others(r) : got[r][p] = log[p][k[r]][r]
NothingLeft == Done => \A p, r \in Ranks : chan[p][r] = <<>>
OneRoundAhead == \A p, r \in Ranks : k[p] <= k[r] + 1
AtMostTwoOnTheWay == \A p, r \in Ranks : Len(chan[p][r]) <= 2
Finishes == <>Done
=============================================================================
