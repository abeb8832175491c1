--------------------------- MODULE ChemistryTrace ---------------------------
(* What the real chemistry does to rates and to the gas of a cell, for any    *)
(* state of the gas. Values are <<digits, exponent>>: digits *                *)
(* 10^(exponent - 6), with seven digits.                                      *)
EXTENDS TraceLib
VARIABLES l
vars == <<l>>
Rec == Trace[l]
Init == l = 1

Odd == -1000000007
Tolerance == 20
Close(a, b) ==
  CASE a[2] = b[2] -> Abs(a[1] - b[1]) <= Tolerance
    [] a[2] = b[2] + 1 -> Abs(a[1]) < 2000000 /\ Abs(10 * a[1] - b[1]) <= 10 * Tolerance
    [] b[2] = a[2] + 1 -> Abs(b[1]) < 2000000 /\ Abs(10 * b[1] - a[1]) <= 10 * Tolerance
    [] OTHER -> a[1] = 0 /\ b[1] = 0
Positive(a) == a[1] # Odd /\ a[1] > 0
NotNegative(a) == a[1] # Odd /\ a[1] >= 0
(* a <= b for values that are not negative *)
Less(a, b) == a[1] = 0 \/ (b[1] > 0 /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1])))
Below(a, b) == Less(a, b) \/ Close(a, b)

(* A cell lets through a part of what comes in, less if its gas is more       *)
(* neutral; all of it if there is none left to ionize. Two cells in a row     *)
(* are like one of twice the length, and twice the rate is let through as     *)
(* twice the rate. What is absorbed is what ionizes. A rate that is not       *)
(* significant is not passed on.                                              *)
Twice(a) == IF a[1] >= 5000000 THEN <<(2 * a[1]) \div 10, a[2] + 1>> ELSE <<2 * a[1], a[2]>>
Absorb ==
  /\ Rec.ev = "absorb"
  /\ \A f \in {"out", "ionized", "zero", "longer", "twice", "full", "double"} : NotNegative(Rec[f])
  /\ Rec.zero[1] = 0
  /\ Rec.below => Rec.out[1] = 0 /\ Rec.ionized[1] = 0 /\ Rec.longer[1] = 0
  /\ ~Rec.below =>
       /\ Below(Rec.out, Rec["in"]) /\ Below(Rec.out, Rec.ionized) /\ Below(Rec.ionized, Rec["in"])
       /\ Close(Rec.full, Rec["in"])
       /\ Close(Rec.double, Twice(Rec.out))
       /\ Rec.above => Close(Rec.twice, Rec.longer)
       /\ ~Rec.clear => Close(Rec.used, Rec.absorbed)

One == <<1000000, 0>>
Least == <<1000000, -10>>
Update ==
  /\ Rec.ev = "update"
  /\ \A f \in {"x1", "neutral1", "t1", "timescale"} : Positive(Rec[f])
  /\ Below(Rec.x1, One) /\ Below(Rec.neutral1, One)
  /\ Below(Least, Rec.x1) /\ Below(Least, Rec.neutral1)
  /\ Rec.floor => (Below(Rec.x0, Rec.x1) \/ Close(Rec.neutral1, Least)) /\ Below(Rec.t0, Rec.t1)
  (* cold gas in the dark recombines, *)
  /\ Rec.dark /\ ~Rec.floor => Below(Rec.x1, Rec.x0) \/ Close(Rec.x1, Least)
  (* and gas that receives far more photons than it has atoms is ionized *)
  /\ Rec.bright => Below(<<9000000, -1>>, Rec.x1)

(* A step gives what many small steps give, roughly: the ionized fractions    *)
(* agree to a quarter (the integration itself agrees to 8 percent).           *)
Roughly(a, b) ==
  CASE a[2] = b[2] -> 4 * Abs(a[1] - b[1]) <= Max2(a[1], b[1])
    [] a[2] = b[2] + 1 -> a[1] < 2000000 /\ 4 * Abs(10 * a[1] - b[1]) <= 10 * a[1]
    [] b[2] = a[2] + 1 -> b[1] < 2000000 /\ 4 * Abs(10 * b[1] - a[1]) <= 10 * b[1]
    [] OTHER -> FALSE
Split ==
  /\ Rec.ev = "split"
  /\ Positive(Rec.whole[1]) /\ Positive(Rec.pieces[1])
  /\ Roughly(Rec.whole[1], Rec.pieces[1])
Next == l <= Len(Trace) /\ (Absorb \/ Update \/ Split) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
