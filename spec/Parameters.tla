------------------------------ MODULE Parameters ------------------------------
(* The parameters of a run: sections of a parameter file, changed by the       *)
(* overrides of the command line in the order in which they are given, and     *)
(* completed by defaults. What is recorded of them gives the same again.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Leaf(i) == [leaf |-> i]
Map(f) == [map |-> f]
Refused == [refused |-> 0]
IsLeaf(t) == "leaf" \in DOMAIN t
IsMap(t) == "map" \in DOMAIN t

(* What a section is, with the value v at the place the keys name.             *)
RECURSIVE Put(_, _, _)
Put(t, keys, v) ==
  IF t = Refused THEN Refused
  ELSE IF keys = <<>> THEN v
  ELSE IF ~IsMap(t) THEN Refused
  ELSE LET k   == keys[1]
           new == Put(IF k \in DOMAIN t.map THEN t.map[k] ELSE Map(Empty), Tail(keys), v)
       IN  IF new = Refused THEN Refused
           ELSE Map([x \in DOMAIN t.map \cup {k} |-> IF x = k THEN new ELSE t.map[x]])

RECURSIVE PutAll(_, _, _)
PutAll(t, s, os) ==
  IF os = <<>> THEN t
  ELSE PutAll(IF os[1].section = s THEN Put(t, os[1].keys, os[1].value) ELSE t, s, Tail(os))

(* What is read from it: every field, and nothing that is not a field.         *)
Number == [kind |-> "int"]
Struct(fields) == [kind |-> "struct", fields |-> fields]
Required(s) == [is |-> s, default |-> Refused]
Optional(s, d) == [is |-> s, default |-> d]

RECURSIVE Read(_, _)
Read(schema, t) ==
  IF schema.kind = "int" THEN IF IsLeaf(t) THEN t ELSE Refused
  ELSE IF ~IsMap(t) THEN Refused
  ELSE IF ~(DOMAIN t.map \subseteq DOMAIN schema.fields) THEN Refused
  ELSE LET value(k) == IF k \in DOMAIN t.map THEN Read(schema.fields[k].is, t.map[k])
                       ELSE schema.fields[k].default
           values == [k \in DOMAIN schema.fields |-> value(k)]
       IN  IF \E k \in DOMAIN values : values[k] = Refused THEN Refused ELSE Map(values)

Section(file, s) == IF s \in DOMAIN file THEN file[s] ELSE Map(Empty)

(* The reference: the parameters of section s.                                 *)
Value(schemas, file, overrides, s) ==
  Read(schemas[s], PutAll(Section(file, s), s, overrides))

CONSTANTS MaxOverrides, Rich
Inner == Struct([a |-> Optional(Number, Leaf(3)), b |-> Optional(Number, Leaf(4))])
Schemas == [one |-> Struct([a |-> Required(Number), b |-> Optional(Inner, Map([a |-> Leaf(3), b |-> Leaf(4)]))]),
            two |-> Number]

Leaves == { Leaf(i) : i \in 1..2 }
Maps(vs) == UNION { { Map(f) : f \in [ks -> vs] } : ks \in SUBSET {"a", "b"} }
Shallow == Leaves \cup Maps({Leaf(1)})
Ones == IF Rich THEN Leaves \cup Maps(Shallow) ELSE Maps({Leaf(1), Map(Empty), Map([a |-> Leaf(2)])})
Files == { f \in UNION { [ss -> Ones \cup {Leaf(2), Map(Empty)}] : ss \in SUBSET DOMAIN Schemas } :
             "two" \in DOMAIN f => f["two"] \in {Leaf(2), Map(Empty)} }
Overrides == [section : DOMAIN Schemas, keys : {<<>>, <<"a">>, <<"b">>, <<"b", "a">>, <<"b", "b">>, <<"c">>},
              value : {Leaf(5), Map(Empty), Map([a |-> Leaf(6)])}]

VARIABLES file, overrides, sections, got
vars == <<file, overrides, sections, got>>

Init ==
  /\ file \in Files
  /\ overrides \in UNION { [1..n -> Overrides] : n \in 0..MaxOverrides }
  /\ sections = file
  /\ got = Empty

Extract(s) ==
  /\ s \notin DOMAIN got
  /\ \A x \in DOMAIN got : got[x] # Refused
  /\ LET t == PutAll(Section(sections, s), s, overrides)
         v == Read(Schemas[s], t)
     IN  /\ got' = (s :> v) @@ got
         /\ sections' = IF s \in DOMAIN sections \/ v = Refused THEN (s :> t) @@ sections ELSE (s :> v) @@ sections
  /\ UNCHANGED <<file, overrides>>

Next == \E s \in DOMAIN Schemas : Extract(s)
Spec == Init /\ [][Next]_vars

AsSpecified == \A s \in DOMAIN got : got[s] = Value(Schemas, file, overrides, s)
Repeatable == \A s \in DOMAIN got : got[s] # Refused => Value(Schemas, sections, <<>>, s) = got[s]
OthersKept == \A s \in DOMAIN Schemas \ DOMAIN got : Section(sections, s) = Section(file, s)
(* The last word on a place is that of the last override of it or what is in it. *)
LastWins == \A s \in DOMAIN got : got[s] # Refused =>
  \A k \in DOMAIN overrides : LET o == overrides[k] IN
    (o.section = s /\ \A j \in k+1..Len(overrides) : overrides[j].section # s)
      => Put(PutAll(Section(file, s), s, overrides), o.keys, o.value) = PutAll(Section(file, s), s, overrides)
=============================================================================
