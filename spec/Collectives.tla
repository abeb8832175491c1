----------------------------- MODULE Collectives -----------------------------
(* Operations in which all ranks take part. The i-th operation of one rank   *)
(* is the i-th of all of them; nobody gets a result before all have given    *)
(* their value; and all get the same result, a function of all the values in *)
(* the order of the ranks.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES size,     \* number of ranks
          entered,  \* entered[r]: operations r has entered, r = 1..size
          exited,   \* exited[r]: operations r has returned from
          given     \* given[i][r]: what r gave for operation i (once it has)
cvars == <<size, entered, exited, given>>

Start(n) == /\ size' = n /\ entered' = [r \in 1..n |-> 0] /\ exited' = [r \in 1..n |-> 0]
            /\ given' = <<>>

Enter(r, v) ==
  /\ entered[r] = exited[r]
  /\ entered' = [entered EXCEPT ![r] = @ + 1]
  /\ LET i == entered[r] + 1
         row == IF i <= Len(given) THEN given[i] ELSE [x \in {} |-> v]
         new == [x \in DOMAIN row \cup {r} |-> IF x = r THEN v ELSE row[x]]
     IN  given' = IF i <= Len(given) THEN [given EXCEPT ![i] = new] ELSE Append(given, new)
  /\ UNCHANGED <<size, exited>>

Complete(i) == i <= Len(given) /\ DOMAIN given[i] = 1..size
Values(i) == [r \in 1..size |-> given[i][r]]

Exit(r, out, F(_)) ==
  /\ exited[r] = entered[r] - 1
  /\ Complete(entered[r])
  /\ out = F(Values(entered[r]))
  /\ exited' = [exited EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<size, entered, given>>

(* The functions. *)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
MinOf(s) == CHOOSE x \in { s[i] : i \in DOMAIN s } : \A i \in DOMAIN s : x <= s[i]
MaxOf(s) == CHOOSE x \in { s[i] : i \in DOMAIN s } : \A i \in DOMAIN s : x >= s[i]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Gather(s) == s
MinOpt(s) == <<MinOf(s)>>
MaxOpt(s) == <<MaxOf(s)>>
Same(s) == \A i, j \in DOMAIN s : s[i] = s[j]
MinMaxSum(s) == <<MinOf(s), MaxOf(s), SumOf(s)>>

(***************************************************************************)
(* The design: there is no reduction in the code, only gathers. Everything *)
(* is gathered by everyone and reduced locally, after a first gather that  *)
(* checks that all ranks mean the same operation. A gather is that each    *)
(* rank puts its value on a board and waits until all have.                *)
(***************************************************************************)
CONSTANTS Ranks, Vals, NumOps
VARIABLES phase, board, result
vars == <<size, entered, exited, given, phase, board, result>>

Init ==
  /\ size = Ranks /\ entered = [r \in 1..Ranks |-> 0] /\ exited = [r \in 1..Ranks |-> 0]
  /\ given = <<>>
  /\ phase = [r \in 1..Ranks |-> "out"]
  /\ board = [x \in (1..NumOps) \X {"tag", "value"} |-> [r \in {} |-> 0]]
  /\ result = [r \in 1..Ranks |-> <<>>]

Put(x, r, v) == board' = [board EXCEPT ![x] = [q \in DOMAIN @ \cup {r} |-> IF q = r THEN v ELSE @[q]]]
All(x) == DOMAIN board[x] = 1..Ranks

Go(r) == /\ phase[r] = "out" /\ entered[r] < NumOps
         /\ \E v \in Vals : Enter(r, v)
         /\ phase' = [phase EXCEPT ![r] = "tag"]
         /\ Put(<<entered[r] + 1, "tag">>, r, 7)
         /\ UNCHANGED result
Tagged(r) == /\ phase[r] = "tag" /\ All(<<entered[r], "tag">>)
             /\ phase' = [phase EXCEPT ![r] = "value"]
             /\ Put(<<entered[r], "value">>, r, given[entered[r]][r])
             /\ UNCHANGED <<size, entered, exited, given, result>>
Reduced(r) == /\ phase[r] = "value" /\ All(<<entered[r], "value">>)
              /\ phase' = [phase EXCEPT ![r] = "out"]
              /\ LET s == [q \in 1..Ranks |-> board[<<entered[r], "value">>][q]]
                 IN  /\ result' = [result EXCEPT ![r] = Append(@, SumOf(s))]
                     /\ exited' = [exited EXCEPT ![r] = @ + 1]
              /\ UNCHANGED <<size, entered, given, board>>
Done == \A r \in 1..Ranks : exited[r] = NumOps
Next == (\E r \in 1..Ranks : Go(r) \/ Tagged(r) \/ Reduced(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ResultsRight ==
  \A r \in 1..Ranks : \A i \in 1..exited[r] : Complete(i) /\ result[r][i] = SumOf(Values(i))
SameEverywhere ==
  \A r, q \in 1..Ranks : \A i \in 1..exited[r] : i <= exited[q] => result[r][i] = result[q][i]
InStep == \A r, q \in 1..Ranks : entered[r] <= entered[q] + 1
Finishes == <>Done
=============================================================================
