--------------------------- MODULE ParametersTrace ---------------------------
(* Parameters as the real code reads them from files with overrides.          *)
EXTENDS TraceLib
VARIABLES l, file, overrides, sections, got
P == INSTANCE Parameters WITH MaxOverrides <- 0, Rich <- FALSE
vars == <<l, file, overrides, sections, got>>

Inner == P!Struct([x |-> P!Optional(P!Number, P!Leaf(3)), y |-> P!Optional(P!Number, P!Leaf(4))])
Three4 == P!Map([x |-> P!Leaf(3), y |-> P!Leaf(4)])
Schemas == [one |-> P!Struct([a |-> P!Required(P!Number), b |-> P!Optional(P!Number, P!Leaf(4)), c |-> P!Optional(Inner, Three4)]),
            two |-> P!Struct([a |-> P!Optional(P!Number, P!Leaf(0)), c |-> P!Optional(Inner, Three4), d |-> P!Optional(Inner, Three4)]),
            three |-> P!Number]

Rec == Trace[l]
Init == l = 1 /\ file = P!Empty /\ overrides = <<>> /\ sections = P!Empty /\ got = P!Empty

File ==
  /\ Rec.ev = "file"
  /\ file' = Rec.file /\ overrides' = Rec.overrides
  /\ sections' = P!Empty /\ got' = P!Empty

Extract ==
  /\ Rec.ev = "extract"
  /\ Rec.value = P!Value(Schemas, file, overrides, Rec.section)
  /\ got' = (Rec.section :> Rec.value) @@ got
  /\ UNCHANGED <<file, overrides, sections>>

(* All sections of the file are recorded, and those that were read.           *)
Recorded ==
  /\ Rec.ev = "recorded"
  /\ DOMAIN Rec.file = DOMAIN file \cup DOMAIN got
  /\ \A s \in DOMAIN got : P!Value(Schemas, Rec.file, <<>>, s) = got[s]
  /\ \A s \in DOMAIN file \ DOMAIN got : Rec.file[s] = file[s]
  /\ sections' = Rec.file
  /\ UNCHANGED <<file, overrides, got>>

Again ==
  /\ Rec.ev = "again"
  /\ Rec.value = got[Rec.section]
  /\ UNCHANGED <<file, overrides, sections, got>>

Next == l <= Len(Trace) /\ (File \/ Extract \/ Recorded \/ Again) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
