------------------------------ MODULE MCScheme ------------------------------
(* The phases of HyperbolicModule::step on a small periodic ring (Burgers' equation, exact arithmetic):
   viscosities and CFL bound, low-order update and bounds, antisymmetric corrections, and up to
   two passes of a limiter of which only its contract is known.  Exhaustive over all states,
   indicator values, limiter answers. *)
EXTENDS Scheme, FiniteSets, TLCExt
CONSTANTS NODES, VALUES, ALPHAS, CFLS, STEPS, COEFFS, PASSES

VARIABLES pc, U, U0, alpha, cfl, tau, D, F, UL, P, L, pass, steps, B
vars == <<pc, U, U0, alpha, cfl, tau, D, F, UL, P, L, pass, steps, B>>

Prev(i) == IF i = 1 THEN NODES ELSE i - 1
Nxt(i) == IF i = NODES THEN 1 ELSE i + 1
G == [n |-> NODES, m |-> [i \in 1..NODES |-> "1"],
      nbr |-> [i \in 1..NODES |-> <<i, Prev(i), Nxt(i)>>],
      c |-> [i \in 1..NODES |-> <<<<"0">>, <<"-1/2">>, <<"1/2">>>>],
      ct |-> [i \in 1..NODES |-> <<<<"0">>, <<"1/2">>, <<"-1/2">>>>]]
MIJ == <<"2/3", "1/6", "1/6">>              \* consistent mass
PH == [eq |-> "scalar", poly |-> <<<<"0", "1/2">>>>]
Back(k) == IF k = 2 THEN 3 ELSE 2            \* position of i in the row of its k-th neighbour
LAMBDA_ == "1/2"                            \* 1 / number of neighbours

Speed(i, k) == RMax(RAbs(U[i][1]), RAbs(U[G.nbr[i][k]][1]))
lam == [i \in 1..NODES |-> [k \in 1..2 |-> <<Speed(i, k + 1), Speed(i, k + 1)>>]]

Init == /\ U \in [1..NODES -> {<<R(v)>> : v \in VALUES}]
        /\ alpha \in ALPHAS
        /\ cfl \in CFLS
        /\ U0 = U /\ pc = "dij" /\ tau = "0" /\ D = <<>> /\ F = <<>> /\ UL = <<>> /\ P = <<>> /\ L = <<>>
        /\ pass = 0 /\ steps = 0 /\ B = <<>>

Viscosity ==
  /\ pc = "dij"
  /\ \E l \in {lam} : \E d \in {Dtab(G, l)} : \E t \in {TauMax(G, d, cfl)} :
        D' = d /\ tau' = IF RLe("1000", t) THEN "1" ELSE t
  /\ U0' = U
  /\ pc' = "low"
  /\ UNCHANGED <<U, alpha, cfl, F, UL, P, L, pass, steps, B>>

LowOrder ==
  /\ pc = "low"
  \* the bound names make TLC evaluate the tables once
  /\ \E u \in {U}, d \in {D}, al \in {alpha}, t \in {tau} : \E f \in {FluxTab(PH, G, u)} :
     LET Bars(i) == [k \in 1..3 |-> IF k = 1 THEN u[i][1] ELSE Bar(G, u, d, f, i, k)[1]]
         dH(i, k) == RMul(d[i][k], RMul("1/2", RAdd(al[i], al[G.nbr[i][k]])))
     IN /\ B' = [i \in 1..NODES |-> <<RMinSeq(Bars(i)), RMaxSeq(Bars(i))>>]
        /\ UL' = [i \in 1..NODES |-> Low(PH, G, u, d, f, t, i)]
        /\ F' = [i \in 1..NODES |->
               RSum([k \in 1..3 |-> RSub(IF k = 1 THEN "0" ELSE RMul(dH(i, k), RSub(u[G.nbr[i][k]][1], u[i][1])),
                                         FluxDiv(f, G, i, k, 1))])]
        /\ P' = [i \in 1..NODES |-> [k \in 2..3 |->
               RMul(RSub(dH(i, k), d[i][k]), RSub(u[G.nbr[i][k]][1], u[i][1]))]]
  /\ pc' = "mass"
  /\ UNCHANGED <<U, U0, alpha, cfl, tau, D, L, pass, steps>>

MassCorrection ==
  /\ pc = "mass"
  /\ P' = [i \in 1..NODES |-> [k \in 2..3 |->
            LET j == G.nbr[i][k] IN
            RMul(RMul(tau, "2"),              \* tau / (m_i lambda)
                 RAdd(P[i][k], RAdd(RMul(RNeg(MIJ[k]), F[j]), RMul(MIJ[k], F[i]))))]]
  /\ pc' = "limit" /\ pass' = 1
  /\ UNCHANGED <<U, U0, alpha, cfl, tau, D, F, UL, L, steps, B>>

(* What the contract of the limiter allows for the edge (i, k) with the update p: any coefficient that keeps
   both ends in their bounds (the coefficients of both ends are reduced to their minimum). *)
Fine(i, p, l) == LET v == RAdd(UL[i][1], RMul(l, p)) IN RLe(B[i][1], v) /\ RLe(v, B[i][2])
Allowed(i, k) == {l \in COEFFS : Fine(i, P[i][k], l) /\ Fine(G.nbr[i][k], P[G.nbr[i][k]][Back(k)], l)}

Limit ==
  /\ pc = "limit"
  /\ LET A == [i \in 1..NODES |-> Allowed(i, 3)]
     IN L' \in {f \in [1..NODES -> COEFFS] : \A i \in 1..NODES : f[i] \in A[i]}
  /\ pc' = "high"
  /\ UNCHANGED <<U, U0, alpha, cfl, tau, D, F, UL, P, pass, steps, B>>

Sym(i, k) == IF k = 3 THEN L[i] ELSE L[Prev(i)]

High ==
  /\ pc = "high"
  /\ UL' = [i \in 1..NODES |->
              <<RAdd(UL[i][1], RSum([k \in 1..2 |-> RMul(RMul(Sym(i, k + 1), LAMBDA_), P[i][k + 1])]))>>]
  /\ P' = [i \in 1..NODES |-> [k \in 2..3 |-> RMul(RSub("1", Sym(i, k)), P[i][k])]]
  /\ IF pass < PASSES
     THEN pass' = pass + 1 /\ pc' = "limit" /\ UNCHANGED <<U, steps>>
     ELSE pass' = 0 /\ pc' = (IF steps + 1 < STEPS THEN "dij" ELSE "end") /\ U' = UL' /\ steps' = steps + 1
  /\ UNCHANGED <<U0, alpha, cfl, tau, D, F, L, B>>

Next == Viscosity \/ LowOrder \/ MassCorrection \/ Limit \/ High
Done == pc = "end"
Spec == Init /\ [][Next]_vars

Symmetric == pc \in {"low", "mass", "limit", "high"} =>
               \A i \in 1..NODES : \A k \in 2..3 : REq(D[i][k], D[G.nbr[i][k]][Back(k)])
Cfl == pc = "low" /\ ~REq(tau, "1") =>
         /\ \A i \in 1..NODES : RLe(RMul(RMul("2", tau), Dsum(G, D, i)), RMul(cfl, G.m[i]))
         /\ \E i \in 1..NODES : Near(RMul(RMul("2", tau), Dsum(G, D, i)), RMul(cfl, G.m[i]), "1e-50")
AntiSymmetric == pc \in {"limit", "high"} =>
               \A i \in 1..NODES : \A k \in 2..3 : REq(P[i][k], RNeg(P[G.nbr[i][k]][Back(k)]))
Conserved == pc \in {"mass", "limit", "high"} => REq(Total(G, UL, 1), Total(G, U0, 1))
InBounds == pc \in {"mass", "limit", "high"} => \A i \in 1..NODES : RLe(B[i][1], UL[i][1]) /\ RLe(UL[i][1], B[i][2])
MaxPrinciple == pc \in {"mass", "limit", "high", "end", "dij"} =>
   LET a == [i \in 1..NODES |-> U0[i][1]]  W == IF UL = <<>> THEN U ELSE UL
   IN \A i \in 1..NODES : RLe(RMinSeq(a), W[i][1]) /\ RLe(W[i][1], RMaxSeq(a))
Constant == (\A i, j \in 1..NODES : U0[i] = U0[j]) /\ UL # <<>> => \A i \in 1..NODES : REq(UL[i][1], U0[i][1])
=============================================================================
