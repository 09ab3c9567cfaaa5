------------------------------- MODULE Scheme -------------------------------
(* The first-order graph viscosity update with convex limiting, on a graph
     G = [n, m (lumped masses), nbr (neighbours of i; the first is i itself),
          c (gradient vectors c_ij, parallel to nbr), ct (c_ji)].
   Used by MCScheme (exhaustive, small) and TraceScheme (recorded updates of the real module). *)
EXTENDS Physics

Nodes(G) == 1..G.n
Off(G, i) == 2..Len(G.nbr[i])
NormUp(c) == RRootUp(RDot(c, c), 2, 120)

(* graph viscosity of the edge (i, k-th neighbour), lam = <<lambda(i,j), lambda(j,i)>> *)
Dij(G, lam, i, k) == RMax(RMul(NormUp(G.c[i][k]), lam[i][k - 1][1]), RMul(NormUp(G.ct[i][k]), lam[i][k - 1][2]))
Dtab(G, lam) == TLCEval([i \in Nodes(G) |-> TLCEval([k \in Off(G, i) |-> Rnd(Dij(G, lam, i, k))])])
Dsum(G, D, i) == RSum([k \in 1..(Len(G.nbr[i]) - 1) |-> D[i][k + 1]])

(* the CFL bound *)
TauMax(G, D, cfl) ==
  RMinSeq([i \in Nodes(G) |-> LET s == Dsum(G, D, i) IN
             IF RLe(s, "0") THEN "1e300" ELSE Rnd(RDiv(RMul(cfl, G.m[i]), RMul("2", s)))])

FluxTab(P, G, U) == TLCEval([i \in Nodes(G) |-> TLCEval(Flux(P, U[i]))])

(* (f_i + f_j) . c_ij *)
FluxDiv(f, G, i, k, a) == RAdd(RDot(f[i][a], G.c[i][k]), RDot(f[G.nbr[i][k]][a], G.c[i][k]))

(* the low-order update: a convex combination of U_i and the bar states if tau obeys the CFL bound *)
Low(P, G, U, D, f, tau, i) ==
  [a \in 1..Len(U[i]) |->
     RAdd(U[i][a], RMul(RDiv(tau, G.m[i]),
       RSum([k \in 1..Len(G.nbr[i]) |->
         RSub(IF k = 1 THEN "0" ELSE RMul(D[i][k], RSub(U[G.nbr[i][k]][a], U[i][a])),
              FluxDiv(f, G, i, k, a))])))]

Bar(G, U, D, f, i, k) ==
  LET j == G.nbr[i][k] IN
  [a \in 1..Len(U[i]) |->
     IF REq(D[i][k], "0") THEN RMul("1/2", RAdd(U[i][a], U[j][a]))
     ELSE Rnd(RMul("1/2", RSub(RAdd(U[i][a], U[j][a]),
               RDiv(RSub(RDot(f[j][a], G.c[i][k]), RDot(f[i][a], G.c[i][k])), D[i][k]))))]

(* totals and the discrete boundary flux  sum_j f_j . b_j,  b_j = sum_i c_ij *)
Total(G, U, a) == RSum([i \in Nodes(G) |-> RMul(G.m[i], U[i][a])])
TotalAbs(G, U, a) == RSumAbs([i \in Nodes(G) |-> RMul(G.m[i], U[i][a])])
BoundaryFlux(G, f, a) ==
  RSum([i \in Nodes(G) |-> RSum([k \in 1..Len(G.nbr[i]) |-> RDot(f[G.nbr[i][k]][a], G.c[i][k])])])
FluxScale(G, f, a) ==
  RSum([i \in Nodes(G) |-> RSumAbs([k \in 1..Len(G.nbr[i]) |-> RDot(f[G.nbr[i][k]][a], G.c[i][k])])])

Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
=============================================================================
