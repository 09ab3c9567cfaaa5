------------------------------ MODULE Offline ------------------------------
(***************************************************************************)
(* The precomputed operators: consistent and lumped mass, gradient vectors, *)
(* jump penalties, boundary map, as functions of the mesh and the ansatz,   *)
(* by exact integration.                                                    *)
(*                                                                          *)
(* A mesh T is a record                                                     *)
(*   dim, k (degree), dg                                                    *)
(*   N: number of nodes (degrees of freedom before constraints)             *)
(*   pt[u]: point of node u modulo periodicity, row[u]: its row or 0        *)
(*   n: number of rows                                                      *)
(*   lat[l]: lattice index (1..k+1 per direction) of a local node           *)
(*   cells[c] = [v: vertices, d: nodes, f: boundary id per face or -1,      *)
(*               nb: <<cell, face>> across a face or <<0, 0>>,              *)
(*               mid: <<a, b, p>>: point p is the midpoint of the edge of   *)
(*                    nodes a, b (continuous ansatz of degree one)]         *)
(* Vertices, faces and local nodes are in lexicographic order.  Cells are   *)
(* intervals, straight quadrilaterals, or boxes.                            *)
(***************************************************************************)
EXTENDS Rational, Sequences, FiniteSets, SequencesExt, TLC

(* polynomials on [0,1]: sequences of coefficients *)
Lag(k, a) == CASE k = 0 -> <<"1">>
               [] k = 1 -> IF a = 1 THEN <<"1", "-1">> ELSE <<"0", "1">>
               [] k = 2 -> CASE a = 1 -> <<"1", "-3", "2">> [] a = 2 -> <<"0", "4", "-4">> [] OTHER -> <<"0", "-1", "2">>
PolyMul(p, q) == [m \in 1..(Len(p) + Len(q) - 1) |->
  RSum([i \in 1..Len(p) |-> IF m - i + 1 \in 1..Len(q) THEN RMul(p[i], q[m - i + 1]) ELSE "0"])]
PolyDer(p) == IF Len(p) = 1 THEN <<"0">> ELSE [m \in 1..(Len(p) - 1) |-> RMul(R(m), p[m + 1])]
PolyInt(p, shift) == RSum([m \in 1..Len(p) |-> RDiv(p[m], R(m + shift))])
PolyAt(p, s) == IF s = 0 THEN p[1] ELSE RSum(p)
(* 1D tables: int xi^p l_a l_b, int xi^p l_a l_b', int l_a, l_a at the end s *)
Tables == TLCEval([k \in 0..2 |->
  [M |-> [p \in 0..1 |-> [a \in 1..k + 1 |-> [b \in 1..k + 1 |-> PolyInt(PolyMul(Lag(k, a), Lag(k, b)), p)]]],
   D |-> [p \in 0..1 |-> [a \in 1..k + 1 |-> [b \in 1..k + 1 |-> PolyInt(PolyMul(Lag(k, a), PolyDer(Lag(k, b))), p)]]],
   I |-> [a \in 1..k + 1 |-> PolyInt(Lag(k, a), 0)],
   E |-> [a \in 1..k + 1 |-> [s \in 0..1 |-> PolyAt(Lag(k, a), s)]]]])

Sub(a, b) == [d \in 1..Len(a) |-> RSub(a[d], b[d])]
Cross(a, b) == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN "1" ELSE RMul(Head(s), Prod(Tail(s)))
Dims(T) == 1..T.dim
Pow2(d) == CASE d = 0 -> 1 [] d = 1 -> 2 [] d = 2 -> 4
Width(T, c) == [d \in Dims(T) |-> RSub(c.v[1 + Pow2(d - 1)][d], c.v[1][d])]      \* of a box

(* local matrices *)
CellMass(T, c, l, m) ==
  LET X == Tables[T.k]  a == T.lat[l]  b == T.lat[m]
  IN IF T.dim = 2
     THEN LET e1 == Sub(c.v[2], c.v[1]) e2 == Sub(c.v[3], c.v[1]) t == Sub(Sub(c.v[4], c.v[3]), e1)
          IN RAdd(RMul(Cross(e1, e2), RMul(X.M[0][a[1]][b[1]], X.M[0][a[2]][b[2]])),
             RAdd(RMul(Cross(e1, t), RMul(X.M[1][a[1]][b[1]], X.M[0][a[2]][b[2]])),
                  RMul(Cross(t, e2), RMul(X.M[0][a[1]][b[1]], X.M[1][a[2]][b[2]]))))
     ELSE LET h == Width(T, c) IN Prod([d \in Dims(T) |-> RMul(h[d], X.M[0][a[d]][b[d]])])
CellGrad(T, c, l, m) ==
  LET X == Tables[T.k]  a == T.lat[l]  b == T.lat[m]
  IN IF T.dim = 2
     THEN LET e1 == Sub(c.v[2], c.v[1]) e2 == Sub(c.v[3], c.v[1]) t == Sub(Sub(c.v[4], c.v[3]), e1)
              D1 == [p \in 0..1 |-> RMul(X.D[p][a[1]][b[1]], X.M[0][a[2]][b[2]])]
              D2 == [p \in 0..1 |-> RMul(X.M[0][a[1]][b[1]], X.D[p][a[2]][b[2]])]
              (* int phi_a (y_eta d_xi - y_xi d_eta) phi_b for the coordinate y *)
              G(q) == RSub(RAdd(RMul(e2[q], D1[0]), RMul(t[q], D1[1])), RAdd(RMul(e1[q], D2[0]), RMul(t[q], D2[1])))
          IN <<G(2), RNeg(G(1))>>
     ELSE LET h == Width(T, c)
          IN [d \in Dims(T) |-> Prod([e \in Dims(T) |-> IF e = d THEN X.D[0][a[e]][b[e]] ELSE RMul(h[e], X.M[0][a[e]][b[e]])])]

(* faces: number 2(d-1)+s+1 is the side s of direction d *)
Dir(f) == (f + 1) \div 2
Side(f) == (f + 1) % 2
(* integral of the outward normal (times the size of the face) *)
FaceNormal(T, c, f) ==
  IF T.dim = 2
  THEN LET i == CASE f = 1 -> <<1, 3>> [] f = 2 -> <<2, 4>> [] f = 3 -> <<1, 2>> [] f = 4 -> <<3, 4>>
           t == Sub(c.v[i[2]], c.v[i[1]])
       IN IF f \in {1, 4} THEN <<RNeg(t[2]), t[1]>> ELSE <<t[2], RNeg(t[1])>>
  ELSE LET h == Width(T, c)
           area == Prod([e \in Dims(T) |-> IF e = Dir(f) THEN "1" ELSE h[e]])
       IN [d \in Dims(T) |-> IF d # Dir(f) THEN "0" ELSE IF Side(f) = 1 THEN area ELSE RNeg(area)]
Tangential(T, f) == SelectSeq([d \in 1..T.dim |-> d], LAMBDA d : d # Dir(f))
OnFace(T, l, f) == ~REq(Tables[T.k].E[T.lat[l][Dir(f)]][Side(f)], "0")
(* int over the face of phi_l phi_m, phi_m on the side of face g of the neighbour, relative to its size *)
FaceMass(T, l, f, m, g) ==
  LET X == Tables[T.k]  ts == Tangential(T, f)
  IN RMul(RMul(X.E[T.lat[l][Dir(f)]][Side(f)], X.E[T.lat[m][Dir(g)]][Side(g)]),
          Prod([i \in 1..Len(ts) |-> X.M[0][T.lat[l][ts[i]]][T.lat[m][ts[i]]]]))
FaceWeight(T, l, f) ==
  LET X == Tables[T.k]  ts == Tangential(T, f)
  IN RMul(X.E[T.lat[l][Dir(f)]][Side(f)], Prod([i \in 1..Len(ts) |-> X.I[T.lat[l][ts[i]]]]))
Scaled(v, a) == [d \in 1..Len(v) |-> RMul(v[d], a)]
Plus(a, b) == [d \in 1..Len(a) |-> RAdd(a[d], b[d])]
Faces(T) == 1..(2 * T.dim)
Locals(T) == 1..Len(T.lat)

(* discontinuous ansatz: centered traces on interior faces *)
RECURSIVE DgCell(_, _, _, _, _)
DgCell(T, c, l, m, f) ==
  IF f = 0 THEN CellGrad(T, c, l, m)
  ELSE LET rest == DgCell(T, c, l, m, f - 1)
       IN IF c.nb[f][1] = 0 THEN rest
          ELSE Plus(rest, Scaled(FaceNormal(T, c, f), RMul("-1/2", FaceMass(T, l, f, m, f))))

(* constraints *)
Hangs(T) == {p \in UNION {{T.cells[c].mid[i][3] : i \in 1..Len(T.cells[c].mid)} : c \in 1..Len(T.cells)} : TRUE}
Merge(f, g) == [r \in DOMAIN f \cup DOMAIN g |->
                 RMul("1/2", RAdd(IF r \in DOMAIN f THEN f[r] ELSE "0", IF r \in DOMAIN g THEN g[r] ELSE "0"))]
Edges(T) == UNION {{T.cells[c].mid[i] : i \in 1..Len(T.cells[c].mid)} : c \in 1..Len(T.cells)}
RECURSIVE Weights(_, _, _, _)
Weights(T, E, mst, u) ==       \* row -> weight of the value of node u
  IF T.dg = 1 THEN (T.row[u] :> "1")
  ELSE IF T.pt[u] \in DOMAIN mst THEN (mst[T.pt[u]] :> "1")
  ELSE LET e == CHOOSE e \in E : e[3] = T.pt[u] IN Merge(Weights(T, E, mst, e[1]), Weights(T, E, mst, e[2]))
WeightTable(T) ==
  LET E == TLCEval(Edges(T))
      mst == TLCEval([p \in {T.pt[u] : u \in {u \in 1..T.N : T.row[u] > 0}} |-> T.row[CHOOSE u \in 1..T.N : T.row[u] > 0 /\ T.pt[u] = p]])
  IN TLCEval([u \in 1..T.N |-> Weights(T, E, mst, u)])
(* a point that hangs has no row; every other point has one row, whatever the number of its periodic images *)
ConstraintsOk(T) ==
  IF T.dg = 1 THEN \A u \in 1..T.N : T.row[u] > 0
  ELSE \E hang \in {Hangs(T)} : \E pts \in {{T.pt[u] : u \in 1..T.N}} :
       \E cnt \in {[p \in pts |-> Cardinality({u \in 1..T.N : T.pt[u] = p /\ T.row[u] > 0})]} :
         \A p \in pts : cnt[p] = IF p \in hang THEN 0 ELSE 1

Setup(T) ==
  LET W == WeightTable(T)
      occ == TLCEval([r \in 1..T.n |-> {<<c, l>> \in (1..Len(T.cells)) \X Locals(T) : r \in DOMAIN W[T.cells[c].d[l]]}])
  IN [W |-> W, occ |-> occ,
      M |-> TLCEval([c \in 1..Len(T.cells) |-> [l \in Locals(T) |-> [m \in Locals(T) |-> CellMass(T, T.cells[c], l, m)]]]),
      G |-> TLCEval([c \in 1..Len(T.cells) |-> [l \in Locals(T) |-> [m \in Locals(T) |->
              IF T.dg = 1 THEN DgCell(T, T.cells[c], l, m, 2 * T.dim) ELSE CellGrad(T, T.cells[c], l, m)]]])]

(* contributions <<weight, cell, l, m>> to the entry (r, s) *)
Terms(T, S, r, s) ==
  LET X == UNION {{<<x[1], x[2], m>> : m \in {m \in Locals(T) : s \in DOMAIN S.W[T.cells[x[1]].d[m]]}} : x \in S.occ[r]}
  IN SetToSeq(X)
Wgt(T, S, t, r, s) == RMul(S.W[T.cells[t[1]].d[t[2]]][r], S.W[T.cells[t[1]].d[t[3]]][s])
MassTerms(T, S, r, s) == LET t == Terms(T, S, r, s) IN [i \in 1..Len(t) |-> RMul(Wgt(T, S, t[i], r, s), S.M[t[i][1]][t[i][2]][t[i][3]])]
(* couplings across faces of the discontinuous ansatz *)
DgTerms(T, S, r, s) ==
  LET x == CHOOSE x \in S.occ[r] : TRUE  y == CHOOSE y \in S.occ[s] : TRUE  c == T.cells[x[1]]
      fs == SelectSeq([f \in 1..(2 * T.dim) |-> f], LAMBDA f : c.nb[f][1] = y[1])
  IN [i \in 1..Len(fs) |-> Scaled(FaceNormal(T, c, fs[i]), RMul("1/2", FaceMass(T, x[2], fs[i], y[2], c.nb[fs[i]][2])))]
GradTerms(T, S, r, s) ==
  LET t == Terms(T, S, r, s)
  IN [i \in 1..Len(t) |-> Scaled(S.G[t[i][1]][t[i][2]][t[i][3]], Wgt(T, S, t[i], r, s))]
     \o (IF T.dg = 1 THEN DgTerms(T, S, r, s) ELSE <<>>)
Comp(seq, d) == [i \in 1..Len(seq) |-> seq[i][d]]
Neighbours(T, S, r) ==
  LET own == UNION {UNION {DOMAIN S.W[T.cells[x[1]].d[m]] : m \in Locals(T)} : x \in S.occ[r]}
      nbs == UNION {{T.cells[x[1]].nb[f][1] : f \in Faces(T)} \ {0} : x \in S.occ[r]}
  IN IF T.dg = 0 THEN own
     ELSE own \cup UNION {UNION {DOMAIN S.W[T.cells[c].d[m]] : m \in Locals(T)} : c \in nbs}
Mass(T, S, r, s) == RSum(MassTerms(T, S, r, s))
Grad(T, S, r, s) == LET g == GradTerms(T, S, r, s) IN [d \in Dims(T) |-> RSum(Comp(g, d))]
Lumped(T, S, r) == LET s == SetToSeq(Neighbours(T, S, r)) IN RSum([i \in 1..Len(s) |-> Mass(T, S, r, s[i])])
Measure(T, S) == RSum([c \in 1..Len(T.cells) |-> RSum([l \in Locals(T) |-> RSum([m \in Locals(T) |-> S.M[c][l][m]])])])

(* jump penalty: coupled nodes on a common face, at the same position *)
Touch(T, S, r, s) ==
  LET x == CHOOSE x \in S.occ[r] : TRUE  y == CHOOSE y \in S.occ[s] : TRUE
      c == T.cells[x[1]]  l == T.lat[x[2]]  m == T.lat[y[2]]
  IN Cardinality({f \in Faces(T) :
       /\ c.nb[f][1] = y[1] /\ OnFace(T, x[2], f) /\ OnFace(T, y[2], c.nb[f][2])
       /\ \A d \in Dims(T) : d # Dir(f) => l[d] = m[d]})

(* boundary *)
PERIODIC == 1
SLIP == 2
NOSLIP == 3
(* contributions to the boundary data of row r; own: only those of the node that carries the row *)
BoundaryTerms(T, S, r, own) ==
  LET X == UNION {{<<x[1], x[2], f>> : f \in {f \in Faces(T) :
                     /\ T.cells[x[1]].f[f] \notin {-1, PERIODIC} /\ OnFace(T, x[2], f)
                     /\ T.cells[x[1]].nb[f][1] = 0}} :
                  x \in {x \in S.occ[r] : T.row[T.cells[x[1]].d[x[2]]] = r
                                          \/ (~own /\ \E u \in 1..T.N : T.row[u] = r /\ T.pt[u] = T.pt[T.cells[x[1]].d[x[2]]])}}
      s == SetToSeq(X)
  IN [i \in 1..Len(s) |->
       LET c == T.cells[s[i][1]]  n == FaceNormal(T, c, s[i][3])  w == FaceWeight(T, s[i][2], s[i][3])
       IN [n |-> Scaled(n, w), m |-> RMul(RRootUp(RDot(n, n), 2, 100), w), id |-> c.f[s[i][3]]]]
(* contributions with the same type and normals that enclose less than 60 degrees are one entry *)
SameEntry(a, b) ==
  LET ab == RDot(a.n, b.n)
  IN /\ a.id = b.id /\ RLt("0", ab)
     /\ RLt(RMul("1/4", RMul(RDot(a.n, a.n), RDot(b.n, b.n))), RMul(ab, ab))
RECURSIVE Group(_, _)
Group(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET a == Head(s)  hit == {i \in 1..Len(acc) : SameEntry(acc[i], a)}
       IN IF hit = {} THEN Group(Tail(s), Append(acc, a))
          ELSE LET i == CHOOSE i \in hit : TRUE
               IN Group(Tail(s), [acc EXCEPT ![i] = [n |-> Plus(@.n, a.n), m |-> RAdd(@.m, a.m), id |-> @.id]])
Entries(T, S, r, own) ==
  LET g == Group(BoundaryTerms(T, S, r, own), <<>>)
      slips == {i \in 1..Len(g) : g[i].id = SLIP}
  IN [i \in 1..Len(g) |-> IF T.dim = 2 /\ g[i].id = SLIP /\ Cardinality(slips) > 1 THEN [g[i] EXCEPT !.id = NOSLIP] ELSE g[i]]
=============================================================================
