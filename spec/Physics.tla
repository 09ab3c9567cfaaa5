------------------------------ MODULE Physics ------------------------------
(* Fluxes and admissibility of the hyperbolic systems, in exact rational arithmetic.
   A state is a sequence of rationals; Flux(P, U) is the sequence (per component) of the flux vectors. *)
EXTENDS Rational, TLC
Rnd(a) == RDown(a, 220)

LOCAL Dim(U) == Len(U) - 2
Mom(U, d) == U[1 + d]
KineticE(U, dim) == Rnd(RDiv(RDot(SubSeq(U, 2, dim + 1), SubSeq(U, 2, dim + 1)), RMul("2", U[1])))

(* Euler: <<rho, m, E>> *)
EulerRhoE(U) == RSub(U[Len(U)], KineticE(U, Dim(U)))
EulerP(P, U) == Rnd(RMul(RSub(P.gamma, "1"), EulerRhoE(U)))
EulerFlux(P, U) ==
  LET n == Len(U)  dim == Dim(U)
      p == TLCEval(EulerP(P, U))
      v == TLCEval([d \in 1..dim |-> Rnd(RDiv(U[1 + d], U[1]))])
  IN [k \in 1..n |-> [d \in 1..dim |->
        IF k = 1 THEN U[1 + d]
        ELSE IF k = n THEN RMul(v[d], RAdd(U[n], p))
        ELSE RAdd(RMul(U[k], v[d]), IF k = 1 + d THEN p ELSE "0")]]

(* scalar conservation law with a polynomial flux per direction: sum a[k] u^k *)
ScalarFlux(P, U) ==
  <<[d \in 1..Len(P.poly) |-> Rnd(RSum([k \in 1..Len(P.poly[d]) |-> RMul(P.poly[d][k], RPow(U[1], k))]))]>>

(* shallow water without bathymetry: <<h, q>> *)
SWFlux(P, U) ==
  LET dim == Len(U) - 1
      p == RMul(RMul(P.gravity, "1/2"), RMul(U[1], U[1]))
  IN [k \in 1..Len(U) |-> [d \in 1..dim |->
        IF k = 1 THEN U[1 + d]
        ELSE RAdd(IF REq(U[1], "0") THEN "0" ELSE Rnd(RDiv(RMul(U[k], U[1 + d]), U[1])),
                  IF k = 1 + d THEN p ELSE "0")]]

Flux(P, U) == CASE P.eq = "euler" -> EulerFlux(P, U)
                [] P.eq = "scalar" -> ScalarFlux(P, U)
                [] P.eq = "sw" -> SWFlux(P, U)

(* rho^gamma with gamma = p/q: specific entropy e rho^(1-gamma), compared through q-th powers:
   s(U)^q = (rho e)^q / rho^(p) *)
EntropyPow(P, U) == RDown(RDiv(RPow(EulerRhoE(U), P.gq), RPow(U[1], P.gp)), 300)

Finite(U) == \A k \in 1..Len(U) : U[k] \notin {"nan", "inf", "-inf"}

Admissible(P, U) ==
  CASE P.eq = "euler" -> RLt("0", U[1]) /\ RLt("0", EulerRhoE(U))
    [] P.eq = "sw" -> RLe("0", U[1])
    [] P.eq = "density" -> RLt("0", U[1])          \* general equation of state: see below
    [] OTHER -> TRUE
=============================================================================
