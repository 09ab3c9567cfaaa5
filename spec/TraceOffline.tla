---------------------------- MODULE TraceOffline ----------------------------
(* The recorded operators, layouts and boundary maps of real meshes.  A trace is a mesh T (see Offline) with
   rows[r] = [u: node, j: columns (rows), m, minv, mij, c, ct, mijinv, beta], measure, relax (exponent),
   bmap[r]: boundary entries [n, nm, bm, id, x] of row r, cbp[r]: rows coupled with r,
   ranks[p] = [nexport, ninternal, nowned, nrelevant, simd, relevant (nodes), import (local ranges),
               ghostmass (<<node, mass>>), rows].
   OWN: admit boundary data that lack the contributions of the periodic images of a node. *)
EXTENDS Offline, Json, IOUtils
CONSTANT OWN
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, S
tvars == <<tid, pos, S>>
T == Traces[tid]
TOL == "1e-11"
TraceInit == \E i \in 1..Len(Traces) : tid = i /\ pos = -1 /\ S = <<>>

Near(a, b, scale) == RLe(RAbs(RSub(a, b)), RMul(TOL, scale))
NearVec(a, b, scale) == \A d \in Dims(T) : Near(a[d], b[d], scale)
Rng(s) == {s[i] : i \in 1..Len(s)}
Zero(v) == \A d \in 1..Len(v) : REq(v[d], "0")
At(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

(* sizes for the comparison *)
CellAbs(mat, c, l) == RSumAbs(mat[c][l])
MassScale(r) == LET o == SetToSeq(S.occ[r]) IN RSum([i \in 1..Len(o) |-> CellAbs(S.M, o[i][1], o[i][2])])
GradScale(r) ==
  LET o == SetToSeq(S.occ[r])
  IN RSum([i \in 1..Len(o) |-> RSum([f \in 1..(2 * T.dim) |->
             RSumAbs(FaceNormal(T, T.cells[o[i][1]], f))])])

(* entries of row r: where j is no neighbour every entry is zero *)
EntryOk(r, k, nb, ms, gs) ==
  LET row == T.rows[r]  s == row.j[k]
  IN /\ Near(row.mij[k], IF s \in nb THEN Mass(T, S, r, s) ELSE "0", ms)
     /\ NearVec(row.c[k], IF s \in nb THEN Grad(T, S, r, s) ELSE [d \in Dims(T) |-> "0"], gs)
     /\ r \in Rng(T.rows[s].j)
     /\ \A d \in Dims(T) : REq(row.ct[k][d], T.rows[s].c[At(T.rows[s].j, r)][d])
Between(x, a, e) == RLe(RMul(RPowerDown(a, e), "0.999999999999"), x) /\ RLe(x, RMul(RPowerUp(a, e), "1.000000000001"))
BetaOk(r, k, nb) ==
  LET row == T.rows[r]  s == row.j[k]  t == IF s \in nb THEN Touch(T, S, r, s) ELSE 0
      h == RDiv(RMul("1/2", RAdd(row.m, T.rows[s].m)), T.measure)
  IN IF t = 0 THEN REq(row.beta[k], "0")
     ELSE IF REq(T.relax, "0") THEN REq(row.beta[k], R(t))
     ELSE Between(RDiv(row.beta[k], R(t)), h, T.relax)
(* the inverse of the mass matrix of a cell, and nothing else *)
InverseOk(r) ==
  LET row == T.rows[r]  x == CHOOSE x \in S.occ[r] : TRUE  c == x[1]
      own == [l \in Locals(T) |-> T.row[T.cells[c].d[l]]]
      inv == [l \in Locals(T) |-> row.mijinv[At(row.j, own[l])]]
  IN /\ \A k \in 1..Len(row.j) : row.j[k] \notin Rng(own) => REq(row.mijinv[k], "0")
     /\ \A m \in Locals(T) : \E v \in {[l \in Locals(T) |-> RMul(inv[l], S.M[c][l][m])]} :
          RLe(RAbs(RSub(RSum(v), IF own[m] = r THEN "1" ELSE "0")), RMul(TOL, RAdd("1", RSumAbs(v))))
RowOk(r) ==
  \E row \in {T.rows[r]} : \E nb \in {TLCEval(Neighbours(T, S, r))} :
  \E ms \in {MassScale(r)} : \E gs \in {GradScale(r)} :
    /\ T.row[row.u] = r
    /\ row.j[1] = r /\ Cardinality(Rng(row.j)) = Len(row.j)
    /\ IF T.dg = 0 THEN Rng(row.j) = nb
       ELSE \A s \in nb \ Rng(row.j) : Zero(Grad(T, S, r, s)) /\ REq(Mass(T, S, r, s), "0") /\ Touch(T, S, r, s) = 0
    /\ \A k \in 1..Len(row.j) : EntryOk(r, k, nb, ms, gs)
    /\ Near(row.m, Lumped(T, S, r), ms)
    /\ RLe(RAbs(RSub(RMul(row.m, row.minv), "1")), "1e-14")
    /\ T.dg = 1 => InverseOk(r) /\ \A k \in 1..Len(row.j) : BetaOk(r, k, nb)

(* boundary data of row r *)
Point(c, l) ==
  LET s == [d \in Dims(T) |-> IF T.k = 0 THEN "1/2" ELSE RDiv(R(T.lat[l][d] - 1), R(T.k))]
      w == [v \in 1..Len(c.v) |-> Prod([d \in Dims(T) |->
              IF ((v - 1) \div Pow2(d - 1)) % 2 = 1 THEN s[d] ELSE RSub("1", s[d])])]
  IN [e \in Dims(T) |-> RSum([v \in 1..Len(c.v) |-> RMul(w[v], c.v[v][e])])]
NodePoint(r) == LET x == CHOOSE x \in S.occ[r] : T.cells[x[1]].d[x[2]] = T.rows[r].u IN Point(T.cells[x[1]], x[2])
EntryIs(w, g, scale) ==
  /\ w.id = g.id
  /\ Near(g.bm, w.m, w.m)
  /\ RLe(RAbs(RSub(RDot(g.n, g.n), "1")), "1e-10")
  /\ RLt("0", g.nm) /\ RLe(RAbs(RSub(RMul(g.nm, g.nm), RDot(w.n, w.n))), RMul("1e-10", RAdd(RDot(w.n, w.n), "1e-20")))
  /\ \A d \in Dims(T) : RLe(RAbs(RSub(RMul(g.n[d], g.nm), w.n[d])), RMul(TOL, RAdd(w.m, "1e-10")))
  /\ \A d \in Dims(T) : Near(g.x[d], scale[d], RAdd("1", RAbs(scale[d])))
BoundaryIs(r, own) ==
  \E want \in {TLCEval(Entries(T, S, r, own))} : \E x \in {NodePoint(r)} : \E got \in {T.bmap[r]} :
    /\ Len(want) = Len(got)
    /\ \A i \in 1..Len(want) : \E k \in 1..Len(got) : EntryIs(want[i], got[k], x)
    /\ \A k \in 1..Len(got) : \E i \in 1..Len(want) : EntryIs(want[i], got[k], x)
BoundaryOk(r) == BoundaryIs(r, FALSE) \/ (OWN /\ BoundaryIs(r, TRUE))
OnBoundary(r) == \E x \in S.occ[r] : \E f \in Faces(T) :
                    T.cells[x[1]].f[f] \notin {-1, PERIODIC} /\ OnFace(T, x[2], f)
(* pairs on the boundary: at least those without skew symmetry *)
PairsOk(r) ==
  /\ Cardinality(Rng(T.cbp[r])) = Len(T.cbp[r])
  /\ \A i \in 1..Len(T.cbp[r]) : \E k \in {T.cbp[r][i][1]} :
       /\ k \in 2..Len(T.rows[r].j) /\ T.cbp[r][i][2] = T.rows[r].j[k]
       /\ OnBoundary(r) /\ OnBoundary(T.rows[r].j[k])
  /\ \E nb \in {Neighbours(T, S, r)} : \A k \in 2..Len(T.rows[r].j) : \E s \in {T.rows[r].j[k]} :
       (/\ s \in nb /\ OnBoundary(r) /\ OnBoundary(s)
        /\ ~Zero(Plus(Grad(T, S, r, s), Grad(T, S, s, r))))
       => \E i \in 1..Len(T.cbp[r]) : T.cbp[r][i][1] = k

(* index layout *)
Ghosts(L) == {L.relevant[l] : l \in L.nowned + 1..L.nrelevant}
Owned(L) == {L.relevant[l] : l \in 1..L.nowned}
LayoutOk(p) ==
  \E L \in {T.ranks[p]} :
    /\ L.nexport <= L.ninternal /\ L.ninternal <= L.nowned /\ L.nowned <= L.nrelevant
    /\ L.nrelevant = Len(L.relevant) /\ Cardinality(Rng(L.relevant)) = L.nrelevant
    /\ L.nexport % L.simd = 0 /\ L.ninternal % L.simd = 0
    \* what the other processes need is exported, and stands first or behind the vectorized range
    /\ \E need \in {{l \in 1..L.nowned : \E q \in 1..Len(T.ranks) : q # p /\ L.relevant[l] \in Ghosts(T.ranks[q])}} :
         /\ need = UNION {(L.import[i][1] + 1)..L.import[i][2] : i \in 1..Len(L.import)}
         /\ \A l \in need : l <= L.nexport \/ l > L.ninternal
    \* rows: the local index, stride, and the columns that are needed
    /\ \A i \in 1..Len(L.rows) : \E r \in {L.rows[i].r} :
         /\ T.rows[r].u = L.relevant[L.rows[i].l + 1] /\ L.rows[i].l < L.nowned
         /\ \A k \in 1..Len(T.rows[r].j) : T.rows[T.rows[r].j[k]].u \in Rng(L.relevant)
    \* nodes without a row are constrained
    /\ {L.rows[i].r : i \in 1..Len(L.rows)} = {T.row[u] : u \in Owned(L)} \ {0}
    \* ghost values
    /\ \A i \in 1..Len(L.ghostmass) : T.row[L.ghostmass[i][1]] > 0
         => REq(L.ghostmass[i][2], T.rows[T.row[L.ghostmass[i][1]]].m)
    /\ {L.ghostmass[i][1] : i \in 1..Len(L.ghostmass)} = Ghosts(L)
PartitionOk ==
  /\ UNION {Owned(T.ranks[p]) : p \in 1..Len(T.ranks)} = 1..T.N
  /\ \A p, q \in 1..Len(T.ranks) : p # q => Owned(T.ranks[p]) \cap Owned(T.ranks[q]) = {}
GlobalOk ==
  /\ PartitionOk
  /\ \E m \in {Measure(T, S)} : Near(T.measure, m, m)
  /\ \A p \in 1..Len(T.ranks) : LayoutOk(p)

(* one step for the mesh as a whole, then one per row *)
TraceNext ==
  \/ pos = -1 /\ ConstraintsOk(T) = TRUE /\ pos' = 0 /\ UNCHANGED tid /\ \E s \in {Setup(T)} : S' = s
  \/ /\ pos = 0 /\ GlobalOk = TRUE /\ pos' = 1 /\ UNCHANGED <<tid, S>>
  \/ /\ pos \in 1..T.n /\ (RowOk(pos) /\ BoundaryOk(pos) /\ PairsOk(pos)) = TRUE
     /\ pos' = pos + 1 /\ UNCHANGED <<tid, S>>
  \/ /\ pos = T.n + 1 /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
