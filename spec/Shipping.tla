------------------------------ MODULE Shipping ------------------------------
(* A value is sent by describing where in memory its parts are. Only the     *)
(* bytes that are described travel. What arrives is the value if and only if *)
(* every byte that is part of it is described. The parts of an optional      *)
(* value are the flag and, if it is set, the content.                        *)
EXTENDS Integers, Sequences, FiniteSets

(* What the receiver of a list of values has to see, in terms of what was sent. *)
Arrives(sent, received) == received = sent
Gathered(sent, n, all) == Len(all) = n * Len(sent) /\ \A i \in DOMAIN all : all[i] = sent[((i - 1) % Len(sent)) + 1]

CONSTANTS Bytes, Vals
VARIABLES parts, described, mem, dest, phase
vars == <<parts, described, mem, dest, phase>>
Init == /\ parts \in SUBSET (1..Bytes) /\ parts # {}
        \* a description that is right covers the parts; padding may or may not travel
        /\ described \in { S \in SUBSET (1..Bytes) : parts \subseteq S }
        /\ mem \in [1..Bytes -> Vals]
        /\ dest = [i \in 1..Bytes |-> -1] /\ phase = "send"
Ship == /\ phase = "send" /\ phase' = "sent"
        /\ dest' = [i \in 1..Bytes |-> IF i \in described THEN mem[i] ELSE dest[i]]
        /\ UNCHANGED <<parts, described, mem>>
Next == Ship
Spec == Init /\ [][Next]_vars
ValueArrives == phase = "sent" => \A i \in parts : dest[i] = mem[i]
NothingElse == phase = "sent" => \A i \in (1..Bytes) \ described : dest[i] = -1
=============================================================================
