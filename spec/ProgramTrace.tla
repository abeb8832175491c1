---------------------------- MODULE ProgramTrace ----------------------------
(* Whole runs of the real program on the same input: on one rank, and then on *)
(* several, with the input in other files, other units, other numbers of      *)
(* output files and other schedules. All have the same snapshots and time     *)
(* series, and the values are possible ones. Values are <<digits, exponent>>: *)
(* digits * 10^(exponent - 6), with seven digits.                             *)
EXTENDS TraceLib
VARIABLES l, run, base
vars == <<l, run, base>>
Rec == Trace[l]
None == [snapshots |-> <<>>]
Init == l = 1 /\ run = [particles |-> 0] /\ base = None

Tolerance == 20
(* a = b up to the last digits *)
Close(a, b) ==
  CASE a[2] = b[2] -> Abs(a[1] - b[1]) <= Tolerance
    [] a[2] = b[2] + 1 -> Abs(a[1]) < 2000000 /\ Abs(10 * a[1] - b[1]) <= 10 * Tolerance
    [] b[2] = a[2] + 1 -> Abs(b[1]) < 2000000 /\ Abs(10 * b[1] - a[1]) <= 10 * Tolerance
    [] OTHER -> a[1] = 0 /\ b[1] = 0
(* a >= b for positive values, up to the last digits *)
AtLeast(a, b) == b[1] <= 0 \/ (a[1] > 0 /\ (a[2] > b[2] \/ (a[2] = b[2] /\ a[1] >= b[1] - Tolerance) \/ Close(a, b)))
Odd == -1000000007
Number(v) == v[1] # Odd

Field(name) == CHOOSE k \in DOMAIN run.fields : run.fields[k] = name
Ion == Field("ionized_hydrogen_fraction")
Temp == Field("temperature")
Rate == Field("photon_rate")
Photo == Field("photoionization_rate")
When == Field("ionization_time")
Constant(f) == run.fields[f] \in {"density", "mass", "source"}

(* Snapshots hold every particle once, with possible values.                  *)
Complete(s) ==
  /\ [k \in DOMAIN s.rows |-> s.rows[k].tag] = [k \in 1..run.particles |-> k]
  /\ \A f \in DOMAIN s.sizes : s.sizes[f] = IF Rec.chosen[f] /\ (~Constant(f) \/ s.name = Rec.snapshots[1].name) THEN run.particles ELSE 0
  /\ \A k \in DOMAIN s.times : s.times[k] = s.times[1]
Possible(s) == \A k \in DOMAIN s.rows : LET v == s.rows[k].values IN
  /\ Number(v[Ion]) /\ v[Ion][1] >= 0 /\ (v[Ion][1] = 0 \/ v[Ion][2] < 0 \/ (v[Ion][2] = 0 /\ v[Ion][1] <= 1000000))
  /\ Number(v[Temp]) /\ v[Temp][1] > 0
  /\ Number(v[Rate]) /\ v[Rate][1] >= 0
(* If cooling is prevented, nothing falls below the initial values.          *)
Floor(ss) == run.floor =>
  \A i \in 2..Len(ss) : \A k \in DOMAIN ss[i].rows :
    /\ AtLeast(ss[i].rows[k].values[Ion], ss[1].rows[k].values[Ion])
    /\ AtLeast(ss[i].rows[k].values[Temp], ss[1].rows[k].values[Temp])
(* The time at which the gas was ionized is noted once and kept.              *)
Noted(ss) == Rec.chosen[When] =>
  \A i \in DOMAIN ss : \A k \in DOMAIN ss[i].rows :
    LET v == ss[i].rows[k].values
    IN  /\ i > 1 /\ Number(v[Ion]) /\ v[Ion][2] = -1 /\ v[Ion][1] > 5000000 => Number(v[When])
        /\ Number(v[When]) => v[When][1] > 0 /\ AtLeast(ss[i].times[1], v[When])
        /\ i > 1 /\ Number(ss[i - 1].rows[k].values[When]) => v[When] = ss[i - 1].rows[k].values[When]
        /\ i > 1 /\ ~Number(ss[i - 1].rows[k].values[When]) /\ Number(v[When]) => AtLeast(v[When], ss[i - 1].times[1])
(* Rates are sums of corrections: next to the highest rate of the run, those  *)
(* smaller by nine orders of magnitude may be nothing but rounding errors.    *)
Exponents(ss) == { IF v[1] = 0 THEN -1000 ELSE v[2] :
                   v \in UNION { { ss[i].rows[k].values[Rate] : k \in DOMAIN ss[i].rows } : i \in DOMAIN ss } }
Peak(ss) == LET e == Exponents(ss) IN CHOOSE x \in e : \A y \in e : y <= x
Faint(v, peak) == v[1] = 0 \/ v[2] < peak - 9
(* Where light arrives in gas that is not fully ionized, it ionizes.          *)
Ionizing(ss) == Rec.chosen[Photo] =>
  \A i \in 2..Len(ss) : \A k \in DOMAIN ss[i].rows :
    LET v == ss[i].rows[k].values
    IN  v[Rate][1] > 0 /\ ~Faint(v[Rate], Peak(ss)) /\ v[Ion][2] < 0 /\ v[Ion][1] < 9990000 => v[Photo][1] > 0
SameSnapshots(a, b, peak) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       /\ a[i].name = b[i].name /\ Close(a[i].times[1], b[i].times[1])
       /\ \A k \in DOMAIN a[i].rows : \A f \in {f \in DOMAIN run.fields : a[i].sizes[f] > 0 /\ b[i].sizes[f] > 0} :
            LET v == a[i].rows[k].values[f]
                w == b[i].rows[k].values[f]
            IN  Close(v, w) \/ (f = Rate /\ Faint(v, peak) /\ Faint(w, peak))
SameSeries(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       /\ a[i].name = b[i].name /\ Len(a[i].values) = Len(b[i].values)
       /\ \A k \in DOMAIN a[i].values : Close(a[i].values[k], b[i].values[k])

Start == Rec.ev = "start" /\ run' = Rec /\ base' = None
Part == Rec.ev = "part" /\ UNCHANGED <<run, base>>
Refused == Rec.ev = "refused" /\ run.grid = "construct" /\ UNCHANGED <<run, base>>
Result ==
  /\ Rec.ev = "result" /\ Rec.leftover = 0 /\ Rec.unfinished = 0
  /\ Len(Rec.snapshots) >= 3 /\ Rec.series # <<>>
  /\ (\A i \in DOMAIN Rec.snapshots : Complete(Rec.snapshots[i]) /\ Possible(Rec.snapshots[i])) = TRUE
  /\ Floor(Rec.snapshots) = TRUE
  /\ Noted(Rec.snapshots) = TRUE
  /\ Ionizing(Rec.snapshots) = TRUE
  /\ IF base = None THEN base' = [snapshots |-> Rec.snapshots, series |-> Rec.series, peak |-> Peak(Rec.snapshots)]
     ELSE /\ (SameSnapshots(base.snapshots, Rec.snapshots, base.peak)) = TRUE
          /\ (SameSeries(base.series, Rec.series)) = TRUE
          /\ UNCHANGED base
  /\ UNCHANGED run
Next == l <= Len(Trace) /\ (Start \/ Part \/ Refused \/ Result) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
