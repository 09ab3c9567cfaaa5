----------------------------- MODULE Parabolic -----------------------------
(***************************************************************************)
(* The parabolic (viscous and heat conducting) step of the Navier-Stokes   *)
(* equations: one backward Euler step of size tau for                      *)
(*   rho v_t = div S(v),  S(v) = 2 mu eps(v) + (lambda - 2/3 mu) div v,    *)
(*   rho e_t = div(kappa grad e) + S(v) : grad v,                          *)
(* with the density fixed, mass lumping, and multilinear elements.         *)
(*                                                                         *)
(* P = [dim, mu, lambda, kappa]                                            *)
(* M = [nodes, cells], nodes[i] = [m: lumped mass, bc: sequence of         *)
(*   [n: normal, id]]; cells[c] = [d: per vertex a sequence of [j, w] (the *)
(*   node itself, or the nodes it is interpolated from), q: per quadrature *)
(*   point [w: weight, f: shape functions, g: their gradients]]            *)
(* States are sequences U[i] = <<density, momentum.., total energy>>.      *)
(***************************************************************************)
EXTENDS Rational, Sequences, FiniteSets

SLIP == 2
NOSLIP == 3
DIRICHLET == 4
Dim(P) == 1..P.dim
Kinetic(P, U) == RDiv(RSum([d \in Dim(P) |-> RMul(U[1 + d], U[1 + d])]), RMul("2", U[1]))
Vel(P, U) == [d \in Dim(P) |-> RDiv(U[1 + d], U[1])]
Energy(P, U) == RDiv(RSub(U[P.dim + 2], Kinetic(P, U)), U[1])
Ids(M, i) == {M.nodes[i].bc[k].id : k \in 1..Len(M.nodes[i].bc)}
Strong(M, i) == Ids(M, i) \cap {NOSLIP, DIRICHLET} # {}
Normals(M, i) == LET b == M.nodes[i].bc IN [k \in 1..Len(SelectSeq(b, LAMBDA x : x.id = SLIP)) |-> SelectSeq(b, LAMBDA x : x.id = SLIP)[k].n]

---------------------------------------------------------------------------
(* operators *)
Local(C, f, a) == RSum([k \in 1..Len(C.d[a]) |-> RMul(C.d[a][k].w, f[C.d[a][k].j])])
GradOf(C, x, q, d) == RSum([a \in 1..Len(C.d) |-> RMul(C.q[q].g[a][d], x[a])])
(* gradient of a vector field v[i][e] at point q: G[d][e] = partial_e of component d *)
VelGrad(P, C, v, q) ==
  LET x == [d \in Dim(P) |-> [a \in 1..Len(C.d) |-> RSum([k \in 1..Len(C.d[a]) |-> RMul(C.d[a][k].w, v[C.d[a][k].j][d])])]]
  IN [d \in Dim(P) |-> [e \in Dim(P) |-> GradOf(C, x[d], q, e)]]
Div(P, G) == RSum([d \in Dim(P) |-> G[d][d]])
Stress(P, G) ==
  [d \in Dim(P) |-> [e \in Dim(P) |->
     RAdd(RMul(P.mu, RAdd(G[d][e], G[e][d])),
          IF d = e THEN RMul(RSub(P.lambda, RDiv(RMul("2", P.mu), "3")), Div(P, G)) ELSE "0")]]
Contract(P, S, G) == RSum([d \in Dim(P) |-> RDot(S[d], G[d])])

(* what is tested with vertex a of cell C: weak form of -div S(v), weak form of -div grad e, and S(v) : grad v *)
Gradients(P, C, v) == [q \in 1..Len(C.q) |-> VelGrad(P, C, v, q)]
Stresses(P, G) == [q \in 1..Len(G) |-> Stress(P, G[q])]
TestStress(P, C, S, a, d) == RSum([q \in 1..Len(C.q) |-> RMul(C.q[q].w, RDot(S[q][d], C.q[q].g[a]))])
TestHeat(P, C, e, a) ==
  LET x == [b \in 1..Len(C.d) |-> Local(C, e, b)]
  IN RSum([q \in 1..Len(C.q) |-> RMul(C.q[q].w, RSum([d \in Dim(P) |-> RMul(C.q[q].g[a][d], GradOf(C, x, q, d))]))])
TestDissipation(P, C, G, S, a) == RSum([q \in 1..Len(C.q) |-> RMul(RMul(C.q[q].w, C.q[q].f[a]), Contract(P, S[q], G[q]))])

(* the vertices [c, a, w] that node i belongs to *)
Occurrences(M, i) == UNION {{[c |-> c, a |-> a, w |-> M.cells[c].d[a][k].w] : k \in {k \in 1..Len(M.cells[c].d[a]) : M.cells[c].d[a][k].j = i}} :
                              <<c, a>> \in {<<c, a>> \in (1..Len(M.cells)) \X (1..Len(M.cells[1].d)) : TRUE}}
Gather(o, val(_, _)) == RSum([k \in 1..Len(o) |-> RMul(o[k].w, val(o[k].c, o[k].a))])

---------------------------------------------------------------------------
(* the discretized equations: F[i] is what the node i gets from a local contribution;
   B: viscous forces per node and component, K: dissipation per node, L: heat conduction per node (all of the new state) *)
MomentumResidual(P, M, tau, rho, vnew, mom, B, i) ==
  [d \in Dim(P) |-> RAdd(RMul(M.nodes[i].m, RSub(RMul(rho[i], vnew[i][d]), mom[i][d])), RMul(tau, B[i][d]))]
Sq(P, v) == RSum([d \in Dim(P) |-> RMul(v[d], v[d])])
Minus(P, v, w) == [d \in Dim(P) |-> RSub(v[d], w[d])]
(* right hand side of the internal energy: the dissipation, and the kinetic energy lost by the implicit step *)
EnergyRhs(P, M, tau, rho, vold, vnew, eold, K, i) ==
  RAdd(RMul(RMul(M.nodes[i].m, rho[i]), RAdd(eold[i], RDiv(Sq(P, Minus(P, vold[i], vnew[i])), "2"))), RMul(tau, K[i]))
EnergyResidual(P, M, tau, rho, enew, rhs, L, i) ==
  RSub(RAdd(RMul(RMul(M.nodes[i].m, rho[i]), enew[i]), RMul(RMul(tau, P.kappa), L[i])), rhs[i])

(* admissible directions at nodes with slip conditions *)
RECURSIVE Tangential(_, _, _)
Tangential(P, x, ns) ==
  IF ns = <<>> THEN x
  ELSE Tangential(P, [d \in Dim(P) |-> RSub(x[d], RMul(RDot(x, Head(ns)), Head(ns)[d]))], Tail(ns))
=============================================================================
