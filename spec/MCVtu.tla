------------------------------- MODULE MCVtu -------------------------------
(* The normalization of derived fields over a history of outputs, with bounds that are kept or recomputed, and the set of
   cells written by several processes.  Values are multiples of 1/4. *)
EXTENDS Vtu, TLC
CONSTANTS RECOMPUTE, BETA, VALUES, OUTPUTS, CELLS, SIGNS, OWNEDONLY
VARIABLES field, bounds, count, owner, sign, written
vars == <<field, bounds, count, owner, sign, written>>
Q(n) == RDiv(R(n), "4")
Nodes == 1..3
Procs == 1..2
(* cells in a row; a process also knows the neighbours of its cells *)
Known(p) == {c \in 1..CELLS : owner[c] = p \/ \E n \in {c - 1, c + 1} : n \in 1..CELLS /\ owner[n] = p}
Writes(p) == {c \in Known(p) : (OWNEDONLY => owner[c] = p) /\ Cut(<<R(sign[c]), R(sign[c + 1])>>)}
Init ==
  /\ field = <<>> /\ bounds = <<>> /\ count = 0
  /\ owner \in [1..CELLS -> Procs] /\ sign \in [1..(CELLS + 1) -> SIGNS] /\ written = <<>>
Output ==
  /\ count < OUTPUTS /\ count' = count + 1
  /\ \E f \in [Nodes -> VALUES] :
       /\ field' = [k \in Nodes |-> Q(f[k])]
       /\ bounds' = IF RECOMPUTE \/ bounds = <<>> THEN <<Bounds([k \in Nodes |-> Q(f[k])])>> ELSE bounds
  /\ written' = [p \in Procs |-> Writes(p)]
  /\ UNCHANGED <<owner, sign>>
Next == Output \/ (count = OUTPUTS /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
N(k) == Normalized(field[k], bounds[1], BETA)
InRange == count > 0 => \A k \in Nodes : RLe("-1", N(k)) /\ RLe(N(k), "1")
Monotone == count > 0 => \A k, l \in Nodes : RLe(RAbs(field[k]), RAbs(field[l])) => RLe(RAbs(N(k)), RAbs(N(l)))
Signed == count > 0 => \A k \in Nodes : RLe("0", RMul(N(k), field[k]))
(* with current bounds the smallest value is not visible, the largest one has the full magnitude *)
Extremes == count > 0 /\ RECOMPUTE => \A k \in Nodes :
  /\ REq(RAbs(field[k]), bounds[1].min) => REq(N(k), "0")
  /\ REq(RAbs(field[k]), bounds[1].max) /\ RLt(bounds[1].min, bounds[1].max) =>
       RLe(RAbs(RSub(RAbs(N(k)), RSub("1", RExpUp(RNeg(BETA))))), "1/1000000")
Kept == [][count > 0 /\ ~RECOMPUTE => bounds' = bounds]_vars
Once == count > 0 => \A c \in 1..CELLS : Cardinality({p \in Procs : c \in written[p]}) =
          (IF Cut(<<R(sign[c]), R(sign[c + 1])>>) THEN 1 ELSE 0)
=============================================================================
