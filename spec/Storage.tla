------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Distributed sparse matrices and vectors with several components.        *)
(*                                                                         *)
(* A layout is [np, lo, hi, nint, ghosts, cols]: process p owns the rows   *)
(* lo[p]..hi[p]; its first nint[p] rows are stored interleaved; ghosts[p]  *)
(* are the foreign rows it knows, in increasing order; cols[i] are the     *)
(* columns of row i (symmetric, with i itself).                            *)
(*                                                                         *)
(* What a process stores: its own rows, and of a foreign row the diagonal  *)
(* and the columns that are its own rows, so that the transposed of each   *)
(* of its entries is at hand.  The state of the matrix is the value of     *)
(* these entries; where and in which order they are in memory cannot be    *)
(* observed.  <<>> is a value that is not defined.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[k] : k \in 1..Len(s)}
Owned(L, p) == L.lo[p]..L.hi[p]
Owner(L, i) == CHOOSE p \in 1..L.np : i \in Owned(L, p)
Cols(L, i) == Range(L.cols[i])
GhostRows(L, p) == Range(L.ghosts[p])
OwnEntries(L, p) == UNION {{<<i, j>> : j \in Cols(L, i)} : i \in Owned(L, p)}
(* columns of a row as process p sees it *)
RowCols(L, p, i) == IF i \in Owned(L, p) THEN Cols(L, i) ELSE {i} \cup (Cols(L, i) \cap Owned(L, p))
GhostEntries(L, p) == UNION {{<<i, j>> : j \in RowCols(L, p, i)} : i \in GhostRows(L, p)}
Entries(L, p) == OwnEntries(L, p) \cup GhostEntries(L, p)

Symmetric(L) == \A i \in 1..L.hi[L.np] : i \in Cols(L, i) /\ \A j \in Cols(L, i) : i \in Cols(L, j)
LayoutOk(L) ==
  /\ Symmetric(L)
  /\ \A p \in 1..L.np : \A i \in Owned(L, p) : Cols(L, i) \subseteq Owned(L, p) \cup GhostRows(L, p)
  /\ \A p \in 1..L.np : GhostRows(L, p) \cap Owned(L, p) = {}

(* what an exchange delivers: the coupled entries of the foreign rows, and their diagonal *)
Delivered(L, p) == {e \in GhostEntries(L, p) : \E j \in Cols(L, e[1]) : j \in Owned(L, p)}
(* the diagonal of a foreign row without any coupling is not specified *)

Undefined(L, p) == [e \in Entries(L, p) |-> <<>>]
NewMatrix(L) == [p \in 1..L.np |-> Undefined(L, p)]
Put(m, p, es, val(_)) == [m EXCEPT ![p] = [e \in DOMAIN m[p] |-> IF e \in es THEN val(e) ELSE m[p][e]]]
(* the exchange: the values are those at the time of the start *)
Capture(L, m) == [p \in 1..L.np |-> [e \in Delivered(L, p) |-> m[Owner(L, e[1])][e]]]
(* between start and finish the entries of foreign rows are not defined *)
Void(L, m) == [p \in 1..L.np |-> [e \in DOMAIN m[p] |-> IF e \in GhostEntries(L, p) THEN <<>> ELSE m[p][e]]]
Deliver(L, m, wire) == [p \in 1..L.np |-> [e \in DOMAIN m[p] |->
                          IF e \in Delivered(L, p) THEN wire[p][e]
                          ELSE IF e \in GhostEntries(L, p) THEN <<>> ELSE m[p][e]]]

---------------------------------------------------------------------------
(* Storage of a matrix with n components in memory: an interleaved block of w rows with the same number of columns
   starts at start; entry (row, position) with component d is at *)
Interleaved(start, w, n, row, position, d) == (start + position * w) * n + d * w + (row % w)
Plain(start, n, position, d) == (start + position) * n + d

---------------------------------------------------------------------------
(* Vectors: a value per own row and per foreign row *)
VecRows(L, p) == Owned(L, p) \cup GhostRows(L, p)
NewVector(L, n) == [p \in 1..L.np |-> [i \in VecRows(L, p) |-> [d \in 1..n |-> 0]]]
VPut(v, p, is, val(_)) == [v EXCEPT ![p] = [i \in DOMAIN v[p] |-> IF i \in is THEN val(i) ELSE v[p][i]]]
VUpdate(L, v) == [p \in 1..L.np |-> [i \in VecRows(L, p) |-> v[Owner(L, i)][i]]]
VZero(L, v) == [p \in 1..L.np |-> [i \in VecRows(L, p) |-> IF i \in Owned(L, p) THEN v[p][i] ELSE [d \in DOMAIN v[p][i] |-> 0]]]
=============================================================================
