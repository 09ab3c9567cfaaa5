----------------------------- MODULE MCOffline -----------------------------
(* The identities of the operators on small meshes: NX x NY quadrilaterals with a displaced vertex, all
   combinations of periodicity, continuous and discontinuous, or two cells next to a larger one (hanging node). *)
EXTENDS Offline
CONSTANTS SIZES, KINDS, MOVES
VARIABLES T, S, done
vars == <<T, S, done>>
(* lattice of (k nx + 1) x (k ny + 1) nodes of the continuous ansatz *)
Node(nx, k, i, j) == j * (k * nx + 1) + i + 1
Vert(nx, ny, mv, i, j) ==
  IF i = 1 /\ j = 1 THEN <<RAdd("1", mv[1]), RAdd("1", mv[2])>> ELSE <<R(i), R(j)>>
Lat(k) == [l \in 1..(k + 1) * (k + 1) |-> <<((l - 1) % (k + 1)) + 1, ((l - 1) \div (k + 1)) + 1>>]
Nb(nx, ny, per, i, j, f) ==
  LET q == CASE f = 1 -> <<i - 1, j>> [] f = 2 -> <<i + 1, j>> [] f = 3 -> <<i, j - 1>> [] f = 4 -> <<i, j + 1>>
      a == IF per[1] THEN q[1] % nx ELSE q[1]  b == IF per[2] THEN q[2] % ny ELSE q[2]
  IN IF a \in 0..nx - 1 /\ b \in 0..ny - 1 THEN <<b * nx + a + 1, IF f % 2 = 1 THEN f + 1 ELSE f - 1>> ELSE <<0, 0>>
Mesh(nx, ny, per, kind, mv) ==
  LET k == kind[2]  dg == kind[1]  n1 == (k + 1) * (k + 1)
      cell(c) == LET i == (c - 1) % nx  j == (c - 1) \div nx
                 IN [v |-> <<Vert(nx, ny, mv, i, j), Vert(nx, ny, mv, i + 1, j), Vert(nx, ny, mv, i, j + 1), Vert(nx, ny, mv, i + 1, j + 1)>>,
                     d |-> [l \in 1..n1 |-> IF dg = 1 THEN (c - 1) * n1 + l
                              ELSE Node(nx, k, k * i + Lat(k)[l][1] - 1, k * j + Lat(k)[l][2] - 1)],
                     f |-> [f \in 1..4 |-> LET d == (f + 1) \div 2
                              IN IF (f = 1 /\ i = 0) \/ (f = 2 /\ i = nx - 1) \/ (f = 3 /\ j = 0) \/ (f = 4 /\ j = ny - 1)
                                 THEN IF per[d] THEN PERIODIC ELSE IF f = 1 THEN SLIP ELSE 4 ELSE -1],
                     nb |-> [f \in 1..4 |-> Nb(nx, ny, per, i, j, f)], mid |-> <<>>]
      N == IF dg = 1 THEN nx * ny * n1 ELSE (k * nx + 1) * (k * ny + 1)
      pt == [u \in 1..N |-> IF dg = 1 THEN u ELSE
               LET i == (u - 1) % (k * nx + 1)  j == (u - 1) \div (k * nx + 1)
               IN Node(nx, k, IF per[1] THEN i % (k * nx) ELSE i, IF per[2] THEN j % (k * ny) ELSE j)]
      row == TLCEval([u \in 1..N |-> IF pt[u] = u THEN Cardinality({w \in 1..u : pt[w] = w}) ELSE 0])
  IN [dim |-> 2, k |-> k, dg |-> dg, N |-> N, pt |-> pt, row |-> row, n |-> Cardinality({u \in 1..N : row[u] > 0}),
      lat |-> Lat(k), cells |-> [c \in 1..nx * ny |-> cell(c)]]
(* a cell of size two with two cells of size one on its right *)
Hanging(mv) ==
  LET sq(x, y, h) == <<<<R(x), R(y)>>, <<R(x + h), R(y)>>, <<R(x), R(y + h)>>, <<R(x + h), R(y + h)>>>>
      none == <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>
      far(p) == <<RAdd(p[1], mv[1]), RAdd(p[2], mv[2])>>
  IN [dim |-> 2, k |-> 1, dg |-> 0, N |-> 8, pt |-> [u \in 1..8 |-> u], row |-> <<1, 2, 3, 4, 0, 5, 6, 7>>, n |-> 7, lat |-> Lat(1),
      \* nodes: 1 (0,0) 2 (2,0) 3 (0,2) 4 (2,2) 5 (2,1) 6 (3,0) 7 (3,1) 8 (3,2)
      cells |-> << [v |-> sq(0, 0, 2), d |-> <<1, 2, 3, 4>>, f |-> <<2, -1, 4, 4>>, nb |-> none, mid |-> <<<<2, 4, 5>>>>],
                   [v |-> [sq(2, 0, 1) EXCEPT ![4] = far(@)], d |-> <<2, 6, 5, 7>>, f |-> <<-1, 4, 4, -1>>, nb |-> none, mid |-> <<>>],
                   [v |-> [sq(2, 1, 1) EXCEPT ![2] = far(@)], d |-> <<5, 7, 4, 8>>, f |-> <<-1, 4, -1, 4>>, nb |-> none, mid |-> <<>>] >>]
Init == /\ done = FALSE
        /\ \/ \E s \in SIZES, kind \in KINDS, mv \in MOVES : \E px, py \in BOOLEAN :
                T = Mesh(s[1], s[2], <<px, py>>, kind, mv)
           \/ \E mv \in MOVES : T = Hanging(mv)
        /\ S = Setup(T)
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<T, S>>
Spec == Init /\ [][Next]_vars
Rows == 1..T.n
Zero(v) == \A d \in 1..Len(v) : REq(v[d], "0")
SumVec(f, set) == LET s == SetToSeq(set) IN [d \in 1..2 |-> RSum([i \in 1..Len(s) |-> f[s[i]][d]])]
Tab == TLCEval([r \in Rows |-> TLCEval([s \in Neighbours(T, S, r) |-> TLCEval(Grad(T, S, r, s))])])
BN == TLCEval([r \in Rows |-> LET b == BoundaryTerms(T, S, r, FALSE) IN
        [d \in 1..2 |-> RSum([i \in 1..Len(b) |-> b[i].n[d]])]])
OnBoundary(r) == BoundaryTerms(T, S, r, FALSE) # <<>>
Identities ==
  done => \E C \in {Tab} : \E b \in {BN} :
    /\ ConstraintsOk(T)
    /\ \A r \in Rows : \A s \in Neighbours(T, S, r) :
         /\ r \in Neighbours(T, S, s)
         /\ REq(Mass(T, S, r, s), Mass(T, S, s, r))
         /\ (~Zero(Plus(C[r][s], C[s][r]))) => OnBoundary(r) /\ OnBoundary(s)
    /\ \A r \in Rows : Zero(SumVec([s \in Neighbours(T, S, r) |-> C[r][s]], Neighbours(T, S, r)))
    /\ \A s \in Rows : LET col == SumVec([r \in Neighbours(T, S, s) |-> C[r][s]], Neighbours(T, S, s))
                       IN \A d \in 1..2 : REq(col[d], b[s][d])
    /\ Zero(SumVec(b, Rows))
    /\ REq(RSum([r \in Rows |-> Lumped(T, S, r)]), Measure(T, S))
    /\ \A r \in Rows : RLt("0", Lumped(T, S, r))
    /\ T.dg = 1 => \A r \in Rows : \A s \in Neighbours(T, S, r) : Touch(T, S, r, s) = Touch(T, S, s, r)
=============================================================================
