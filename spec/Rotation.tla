------------------------------ MODULE Rotation ------------------------------
(* Sweeps whose directions are turned after every time step, on a grid of     *)
(* N x M cells with the four directions of the grid. Cells keep what they     *)
(* receive (inc) and send out (out) and pass on only what has changed, so     *)
(* that cells which do not take part in a sweep need not be solved again.     *)
(* This is right as long as a direction stays what it is. When the directions *)
(* are turned, what is kept belongs to directions that are no more.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, MaxTurns,
          Forget    \* TRUE: the rates are forgotten when the directions turn
VARIABLES turn, inc, out, fine, clear, phase, turns
vars == <<turn, inc, out, fine, clear, phase, turns>>

Cells == (1..N) \X (1..M)
Dirs == 0..3
Vec == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
Along(d) == Vec[((d + turn) % 4) + 1]
Down(c, d) == <<c[1] + Along(d)[1], c[2] + Along(d)[2]>>
Up(c, d) == <<c[1] - Along(d)[1], c[2] - Along(d)[2]>>
Src(c) == IF c = <<1, 1>> THEN 1 ELSE 0

Zero == [c \in Cells |-> [d \in Dirs |-> 0]]
Init ==
  /\ turn \in 0..3 /\ inc = Zero /\ out = Zero
  /\ fine \in SUBSET Cells                \* cells that take part in all sweeps
  /\ clear \in SUBSET Cells               \* cells that let everything through
  /\ phase = "first" /\ turns = 0

(* Solving the active cells of a direction from upwind to downwind.           *)
RECURSIVE Solve(_, _, _, _)
Solve(d, left, i, o) ==
  IF left = {} THEN <<i, o>>
  ELSE LET c == CHOOSE c \in left : Up(c, d) \notin left
           new == IF c \in clear THEN i[c][d] + Src(c) ELSE 0
           change == new - o[c][d]
           j == IF Down(c, d) \in Cells THEN [i EXCEPT ![Down(c, d)][d] = @ + change] ELSE i
       IN  Solve(d, left \ {c}, j, [o EXCEPT ![c][d] = new])
RECURSIVE SolveAll(_, _, _, _)
SolveAll(ds, active, i, o) ==
  IF ds = {} THEN <<i, o>>
  ELSE LET d == CHOOSE d \in ds : TRUE
           s == Solve(d, active, i, o)
       IN  SolveAll(ds \ {d}, active, s[1], s[2])

(* The first sweep of a time step is one of all cells. Afterwards the gas has *)
(* changed.                                                                   *)
Sweep ==
  /\ phase \in {"first", "later"}
  /\ LET s == SolveAll(Dirs, IF phase = "first" THEN Cells ELSE fine, inc, out)
     IN  inc' = s[1] /\ out' = s[2]
  /\ clear' \in SUBSET Cells
  /\ phase' \in IF phase = "first" THEN {"later", "done"} ELSE {"done"}
  /\ UNCHANGED <<turn, fine, turns>>

Turn ==
  /\ phase = "done" /\ turns < MaxTurns
  /\ turn' \in 0..3
  /\ IF Forget THEN inc' = Zero /\ out' = Zero ELSE UNCHANGED <<inc, out>>
  /\ fine' \in SUBSET Cells
  /\ phase' = "first" /\ turns' = turns + 1 /\ UNCHANGED clear

Next == Sweep \/ Turn \/ (phase = "done" /\ turns = MaxTurns /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* After every sweep what a cell has is what the cell upwind of it sends out. *)
Right == phase \in {"later", "done"} =>
  \A c \in Cells : \A d \in Dirs :
    inc[c][d] = IF Up(c, d) \in Cells THEN out[Up(c, d)][d] ELSE 0
Possible == \A c \in Cells : \A d \in Dirs : inc[c][d] \in 0..1 /\ out[c][d] \in 0..1
=============================================================================
