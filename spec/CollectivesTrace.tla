-------------------------- MODULE CollectivesTrace --------------------------
EXTENDS TraceLib
VARIABLES size, entered, exited, given, l
C == INSTANCE Collectives WITH Ranks <- 1, Vals <- {}, NumOps <- 0,
                               phase <- <<>>, board <- <<>>, result <- <<>>

Who(r) ==
  /\ r.claimed = r.rank
  /\ r.size = size
  /\ r.all = [i \in 1..size |-> i - 1]
  /\ r.others = SelectSeq(r.all, LAMBDA x : x # r.rank)

Out(r) ==
  LET k == r.rank + 1
  IN CASE r.op = "gather"      -> C!Exit(k, r.out, C!Gather)
       [] r.op = "gatherv"     -> C!Exit(k, r.out, C!Concat)
       [] r.op = "gatheritems" -> C!Exit(k, r.out, C!Concat)
       [] r.op = "sum"         -> C!Exit(k, r.out, C!SumOf)
       [] r.op = "reduce"      -> C!Exit(k, r.out, C!SumOf)
       [] r.op = "min"         -> C!Exit(k, r.out, C!MinOpt)
       [] r.op = "max"         -> C!Exit(k, r.out, C!MaxOpt)
       [] r.op = "same"        -> C!Exit(k, r.out, C!Same)
       [] r.op = "fminmax"     -> C!Exit(k, r.out, C!MinMaxSum)

Step(r) ==
  CASE r.ev = "run"   -> C!Start(r.n)
    [] r.ev = "who"   -> Who(r) = TRUE /\ UNCHANGED <<size, entered, exited, given>>
    [] r.ev = "begin" -> C!Enter(r.rank + 1, r.in) /\ r.i = entered[r.rank + 1]
    [] r.ev = "end"   -> Out(r) /\ r.i = exited[r.rank + 1]
    [] r.ev = "done"  -> /\ \A a \in 1..size : exited[a] = Len(given)
                         /\ r.leftover = 0 /\ r.unfinished = 0
                         /\ UNCHANGED <<size, entered, exited, given>>
    [] OTHER -> FALSE

Init == size = 0 /\ entered = <<>> /\ exited = <<>> /\ given = <<>> /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<size, entered, exited, given, l>>
=============================================================================
