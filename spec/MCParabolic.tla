---------------------------- MODULE MCParabolic ----------------------------
(* All parabolic steps that end in a state of a small set, on an interval or a square (quadrature at the vertices): the
   old state is the one that the discretized equations determine.
   NOSLIPS: nodes with no-slip conditions; VISC: <<mu, lambda, kappa>>. *)
EXTENDS Parabolic, TLC, SequencesExt
CONSTANTS DIM, CELLS, VELOCITIES, ENERGIES, NOSLIPS, VISC
VARIABLES visc, v, e, O
vars == <<visc, v, e, O>>
P == [dim |-> DIM, mu |-> visc[1], lambda |-> visc[2], kappa |-> visc[3]]
NV == IF DIM = 1 THEN 2 ELSE 4
Nn == IF DIM = 1 THEN CELLS + 1 ELSE 4
Bit(a, d) == IF d = 1 THEN (a - 1) % 2 ELSE (a - 1) \div 2
(* derivative of shape function a at vertex q of the unit cell: nonzero on the edge through q in this direction *)
Derivative(a, q, d) ==
  IF \A f \in 1..DIM : f = d \/ Bit(a, f) = Bit(q, f) THEN R(2 * Bit(a, d) - 1) ELSE "0"
M == [nodes |-> [i \in 1..Nn |-> [m |-> IF DIM = 1 THEN (IF i \in {1, Nn} THEN "1/2" ELSE "1") ELSE "1/4",
                                  bc |-> IF i \in NOSLIPS THEN <<[n |-> <<"1">>, id |-> NOSLIP]>> ELSE <<>>]],
      cells |-> [c \in 1..CELLS |->
        [d |-> [a \in 1..NV |-> <<[j |-> c + a - 1, w |-> "1"]>>],
         q |-> [q \in 1..NV |-> [w |-> IF DIM = 1 THEN "1/2" ELSE "1/4",
                                 f |-> [a \in 1..NV |-> IF a = q THEN "1" ELSE "0"],
                                 g |-> [a \in 1..NV |-> [d \in 1..DIM |-> Derivative(a, q, d)]]]]]]]
N == 1..Nn
NC == 1..CELLS
Tau == "1/2"
Rho == [i \in N |-> R(1 + (i % 3))]
Occ(i) == SetToSeq(Occurrences(M, i))

(* the old state: velocity (at walls: any, here 1), internal energy *)
Forces(p, en, G) ==
  LET Z == [c \in NC |-> Stresses(p, G[c])]
  IN [B |-> [i \in N |-> [d \in 1..DIM |-> Gather(Occ(i), LAMBDA c, a : TestStress(p, M.cells[c], Z[c], a, d))]],
      K |-> [i \in N |-> Gather(Occ(i), LAMBDA c, a : TestDissipation(p, M.cells[c], G[c], Z[c], a))],
      L |-> [i \in N |-> Gather(Occ(i), LAMBDA c, a : TestHeat(p, M.cells[c], en, a))]]
Mr(i) == RMul(M.nodes[i].m, Rho[i])
OldVel(F) == [i \in N |-> IF Strong(M, i) THEN [d \in 1..DIM |-> "1"]
                          ELSE [d \in 1..DIM |-> RAdd(v[i][d], RDiv(RMul(Tau, F.B[i][d]), Mr(i)))]]
OldEn(F, w) == [i \in N |-> RSub(RAdd(e[i], RDiv(RSub(RMul(RMul(Tau, P.kappa), F.L[i]), RMul(Tau, F.K[i])), Mr(i))),
                                 RDiv(Sq(P, Minus(P, w[i], v[i])), "2"))]
Init ==
  /\ visc \in VISC /\ O = <<>>
  /\ \E x \in [N \X (1..DIM) -> VELOCITIES] : v = [i \in N |-> [d \in 1..DIM |-> IF Strong(M, i) THEN "0" ELSE R(x[<<i, d>>])]]
  /\ \E x \in [N -> ENERGIES] : e = [i \in N |-> R(x[i])]
Step ==
  /\ O = <<>> /\ UNCHANGED <<visc, v, e>>
  /\ \E p \in {P} : \E vel \in {v} : \E en \in {e} :
     \E G \in {[c \in NC |-> Gradients(p, M.cells[c], vel)]} :
     \E F \in {Forces(p, en, G)} :
     \E w \in {OldVel(F)} : \E n \in {OldEn(F, w)} :
       O' = <<[v |-> w, e |-> n, K |-> F.K, B |-> F.B]>>
Spec == Init /\ [][Step]_vars

Done == O # <<>>
Walls == \E i \in N : Strong(M, i)
Momentum == Done /\ ~Walls => \A d \in 1..DIM : REq(RSum([i \in N |-> RMul(Mr(i), v[i][d])]), RSum([i \in N |-> RMul(Mr(i), O[1].v[i][d])]))
Total(w, f) == RSum([i \in N |-> RMul(Mr(i), RAdd(f[i], RDiv(Sq(P, w[i]), "2")))])
EnergyThen == Total(O[1].v, O[1].e)
EnergyKept == Done => REq(Total(v, e), EnergyThen)
(* the dissipation is the work of the viscous forces, and nowhere negative *)
Dissipative == Done => /\ REq(RSum(O[1].K), RSum([i \in N |-> RDot(O[1].B[i], v[i])]))
                       /\ \A i \in N : RLe("0", O[1].K[i])
Minimum == Done => RLe(RMinSeq(O[1].e), RMinSeq(e))
Identity == Done /\ visc = <<"0", "0", "0">> /\ ~Walls => v = O[1].v /\ e = O[1].e
=============================================================================
