------------------------------ MODULE TraceLib ------------------------------
(* What all trace specifications share: the records of one run of the real   *)
(* code (one JSON object per line, in the file named by the environment      *)
(* variable TRACE) and the condition under which the run is accepted.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r

(* Every trace specification takes exactly one step per record. *)
Accepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE FlattenSeq(_)
FlattenSeq(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlattenSeq(Tail(s))

Range(s) == { s[k] : k \in DOMAIN s }

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
