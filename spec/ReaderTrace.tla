---------------------------- MODULE ReaderTrace ----------------------------
(* What the ranks get to see of datasets in several files, each in units of   *)
(* its own: 2^exp times powers of the scale factor 2^-a and of the Hubble     *)
(* parameter 2^-h. Each rank reads its part, or everything.                   *)
EXTENDS TraceLib
VARIABLES l
Rec == Trace[l]

Scaled(v, e) == IF e >= 0 THEN v * 2^e ELSE v \div 2^(-e)
Power(f) == f.exp - Rec.a * f.a - Rec.h * f.h
Entry(v, f) ==
  IF Rec.rows THEN <<Scaled(v, Power(f)), Scaled(-v, Power(f)), Scaled(v + 1024, Power(f))>>
  ELSE <<Scaled(v, Power(f)), 0, 0>>
(* units that depend on a cosmology cannot be read without one *)
Readable(f) == f.right /\ (Rec.known \/ (f.a = 0 /\ f.h = 0))
EntriesOf(f) == [i \in DOMAIN f.entries |-> [value |-> Entry(f.entries[i], f), fine |-> Readable(f)]]

Total(all) == Len(all)
Fair(total, share) == share >= total \div Rec.ranks /\ share <= (total \div Rec.ranks) + Rec.ranks - 1
Same(out, part) == Len(out) = Len(part) /\ \A i \in DOMAIN out : out[i] = part[i].value
Fine(part) == \A i \in DOMAIN part : part[i].fine

(* ranks take their parts one after the other; from: what is left for rank r and the following *)
RECURSIVE Dealt(_, _, _)
Dealt(all, r, from) ==
  IF r > Len(Rec.out) THEN from = Len(all) + 1
  ELSE IF Rec.out[r].ok
  THEN LET n == Len(Rec.out[r].list)
           part == SubSeq(all, from, from + n - 1)
       IN  /\ from + n - 1 <= Len(all) /\ Fair(Len(all), n) /\ Rec.out[r].announced = n
           /\ Fine(part) /\ Same(Rec.out[r].list, part)
           /\ Dealt(all, r + 1, from + n)
  ELSE \E n \in 1..(Len(all) - from + 1) :
         /\ Fair(Len(all), n) /\ ~Fine(SubSeq(all, from, from + n - 1))
         /\ Dealt(all, r + 1, from + n)

Read ==
  /\ Rec.ev = "read"
  /\ \E all \in {TLCEval(FlattenSeq([f \in DOMAIN Rec.files |-> EntriesOf(Rec.files[f])]))} :
       IF Rec.split THEN Dealt(all, 1, 1) = TRUE
       ELSE \A r \in DOMAIN Rec.out :
              IF Rec.out[r].ok THEN Fine(all) /\ Same(Rec.out[r].list, all) /\ Rec.out[r].announced = Len(all)
              ELSE ~Fine(all)

Init == l = 1
Next == l <= Len(Trace) /\ Read /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
