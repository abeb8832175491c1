------------------------------ MODULE BatchSend ------------------------------
(* Items queued for another rank travel in batches from one send buffer per  *)
(* pair of ranks. A batch leaves only when the buffer is free; the buffer is *)
(* free again when the send is complete, which may need the receiver.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ranks, Total, Eager
VARIABLES queued,    \* by pair: how many items have been queued so far
          waiting,   \* by pair: items in the queue
          buffer,    \* by pair: the batch in the send buffer (<<>>: free)
          wire,      \* by pair: batches under way
          got,       \* by pair: items received
          gone       \* ranks that have dropped their buffers
vars == <<queued, waiting, buffer, wire, got, gone>>
Pairs == { <<q, r>> \in Ranks \X Ranks : q # r }

Init ==
  /\ queued = [p \in Pairs |-> 0]
  /\ waiting = [p \in Pairs |-> <<>>]
  /\ buffer = [p \in Pairs |-> <<>>]
  /\ wire = [p \in Pairs |-> <<>>]
  /\ got = [p \in Pairs |-> <<>>]
  /\ gone = {}

Queue(p) ==
  /\ queued[p] < Total /\ p[1] \notin gone
  /\ queued' = [queued EXCEPT ![p] = @ + 1]
  /\ waiting' = [waiting EXCEPT ![p] = Append(@, queued[p] + 1)]
  /\ UNCHANGED <<buffer, wire, got, gone>>

MayComplete(p) == Eager \/ wire[p] = <<>>

(* One look at all buffers: those whose send is found complete are freed,    *)
(* then what is waiting for a free buffer leaves.                            *)
TrySend(q) ==
  \E done \in SUBSET { p \in Pairs : p[1] = q /\ buffer[p] # <<>> /\ MayComplete(p) } :
    LET free == { p \in Pairs : p[1] = q /\ (buffer[p] = <<>> \/ p \in done) }
        goes == { p \in free : waiting[p] # <<>> }
    IN  /\ q \notin gone
        /\ buffer' = [p \in Pairs |-> IF p \in goes THEN waiting[p]
                                      ELSE IF p \in free THEN <<>> ELSE buffer[p]]
        /\ wire' = [p \in Pairs |-> IF p \in goes THEN Append(wire[p], waiting[p]) ELSE wire[p]]
        /\ waiting' = [p \in Pairs |-> IF p \in goes THEN <<>> ELSE waiting[p]]
        /\ UNCHANGED <<queued, got, gone>>

Recv(p) ==
  /\ wire[p] # <<>> /\ p[2] \notin gone
  /\ got' = [got EXCEPT ![p] = @ \o Head(wire[p])]
  /\ wire' = [wire EXCEPT ![p] = Tail(@)]
  /\ UNCHANGED <<queued, waiting, buffer, gone>>

(* The buffers are dropped only after every send is complete.                *)
Drop(q) ==
  /\ q \notin gone
  /\ \A p \in Pairs : p[1] = q => queued[p] = Total /\ waiting[p] = <<>> /\ MayComplete(p)
  /\ \A p \in Pairs : p[2] = q => Len(got[p]) = Total
  /\ gone' = gone \cup {q}
  /\ buffer' = [p \in Pairs |-> IF p[1] = q THEN <<>> ELSE buffer[p]]
  /\ UNCHANGED <<queued, waiting, wire, got>>

Next ==
  \/ \E p \in Pairs : Queue(p) \/ Recv(p)
  \/ \E q \in Ranks : TrySend(q) \/ Drop(q)
  \/ gone = Ranks /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\
        \A p \in Ranks \X Ranks : p \in Pairs => WF_vars(Queue(p)) /\ WF_vars(Recv(p))

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
OnceInOrder ==
  \A p \in Pairs : got[p] \o Flat(wire[p]) \o waiting[p] = [i \in 1..queued[p] |-> i]
(* What is under way and not known to be complete is still in the buffer.    *)
BufferKept ==
  ~Eager => \A p \in Pairs : wire[p] # <<>> => buffer[p] = wire[p][Len(wire[p])] /\ Len(wire[p]) = 1
=============================================================================
