----------------------------- MODULE NodeIndex -----------------------------
(* A node of the tree is addressed by the child to take on each level. The   *)
(* path is shipped as bytes: a byte below N is a child, the byte N says that *)
(* the node that has been reached is meant.                                  *)
EXTENDS Integers, Sequences, FiniteSets

This == -1
Steps(n) == {This} \cup 0..(n - 1)
Encode(n, s) == IF s = This THEN n ELSE s
Decode(n, b) == IF b = n THEN This ELSE b
Text(s) == IF s = This THEN "" ELSE <<"0","1","2","3","4","5","6","7">>[s + 1]

CONSTANTS N, MaxDepth
VARIABLES path, shipped
vars == <<path, shipped>>

Init == path = <<>> /\ shipped = <<>>
Descend == /\ Len(path) < MaxDepth
           /\ \A k \in DOMAIN path : path[k] # This
           /\ \E s \in Steps(N) : path' = Append(path, s) /\ shipped' = Append(shipped, Encode(N, s))
Next == Descend
Spec == Init /\ [][Next]_vars

RoundTrip == [k \in DOMAIN shipped |-> Decode(N, shipped[k])] = path
Injective == \A s, t \in Steps(N) : Encode(N, s) = Encode(N, t) => s = t
Fits == \A k \in DOMAIN shipped : shipped[k] \in 0..255
=============================================================================
