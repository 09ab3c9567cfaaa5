------------------------------ MODULE MCRiemann ------------------------------
(* The estimate of the maximal wave speed as an algorithm: choose the pressures of the two rarefaction and of
   the failsafe approximation, the sign of phi at the larger pressure, the pressure p2, and the speed there.
   Invariants: the estimate is a bound; the certificate IsBound is monotone and symmetric, and exact for equal
   sides.  Variant "code" takes the minimum of both pressures in every case, which is not a bound. *)
EXTENDS Riemann, TLC
CONSTANTS Variant, Gammas, Rhos, Us, Ps, Law, Covolumes
VARIABLES pc, l, r, p2, lam
vars == <<pc, l, r, p2, lam>>
Tol == "1e-12"
Gas == {[law |-> "gas", rho |-> a, u |-> b, P |-> c, gamma |-> g, omb |-> RSub(One, RMul(v, a))] : a \in Rhos, b \in Us, c \in Ps, g \in Gammas, v \in Covolumes}
Water == {[law |-> "sw", h |-> a, u |-> b, g |-> "1"] : a \in Rhos, b \in Us}
Sides == IF Law = "sw" THEN Water ELSE {s \in Gas : RLt("0", s.omb)}
Rest == IF Law = "sw" THEN {[s EXCEPT !.u = "0"] : s \in Sides} ELSE {s \in Sides : s.u = "0"}

(* two rarefaction approximation for one common exponent: bracket from above *)
TwoRarefaction ==
  LET g1 == RDiv(RSub(l.gamma, One), "2")
      al == Sqrt(TRUE, A2(l))  ar == Sqrt(TRUE, A2(r))
      num == RMax("0", RSub(RAdd(RMul(al, l.omb), RMul(ar, r.omb)), RMul(g1, RSub(r.u, l.u))))
      e == RDiv(g1, l.gamma)
      den == RAdd(RMul(RMul(Sqrt(FALSE, A2(l)), l.omb), Power(FALSE, RDiv(r.P, l.P), e)), RMul(Sqrt(FALSE, A2(r)), r.omb))
  IN IF REq(num, "0") THEN "0" ELSE RMul(r.P, Power(TRUE, RDiv(num, den), RDiv(One, e)))
(* two rarefaction approximation of shallow water *)
WaterRarefaction ==
  LET s == RAdd(RMul("2", RAdd(Sqrt(TRUE, A2(l)), Sqrt(TRUE, A2(r)))), RSub(l.u, r.u))
  IN RDiv(RMul(RMax(s, "0"), RMax(s, "0")), RMul("16", l.g))
MCInit == /\ pc = "phi" /\ l \in Rest /\ r \in Sides /\ (Law = "gas" => r.gamma = l.gamma) /\ p2 = "0" /\ lam = "0"
Choose ==
  /\ pc = "phi"
  /\ \E t \in {IF Law = "sw" THEN WaterRarefaction ELSE TwoRarefaction} : \E f \in {IF Law = "sw" THEN t ELSE Failsafe(l, r, TRUE)} :
       p2' = IF RLt(Phi(l, r, RMax(Level(l), Level(r)), TRUE), "0") THEN RMin(t, f)
             ELSE IF Variant = "code" THEN RMin(RMax(Level(l), Level(r)), RMin(t, f)) ELSE RMin(RMax(Level(l), Level(r)), t)
  /\ pc' = "speed" /\ UNCHANGED <<l, r, lam>>
Factor(s, x) ==
  LET z == RMax(RDiv(x, Level(s)), One)
  IN IF s.law = "gas" THEN RAdd(One, RMul(RDiv(RAdd(s.gamma, One), RMul("2", s.gamma)), RSub(z, One)))
     ELSE RDiv(RMul(z, RAdd(z, One)), "2")
Speed ==
  /\ pc = "speed"
  /\ lam' = RMax(RMax(RAdd(r.u, Sqrt(TRUE, RMul(A2(r), Factor(r, p2)))), RSub(Sqrt(TRUE, RMul(A2(l), Factor(l, p2))), l.u)), "0")
  /\ pc' = "done" /\ UNCHANGED <<l, r, p2>>
MCNext == Choose \/ Speed \/ (pc = "done" /\ UNCHANGED vars)

Bound == pc = "done" => IsBound(l, r, lam, Tol)
Explained == pc = "done" => IsBound(l, r, lam, Tol) \/ (FailsafeCase(l, r) /\ AtLeast(l, r, lam, Failsafe(l, r, FALSE), Tol))
Grid == {"0", "1b-2", "1b-1", "1", "3b-1", "2", "4", "16"}
Certificate == pc = "phi" =>
  /\ \A x \in Grid : IsBound(l, r, x, Tol) <=> IsBound(Mirror(r), Mirror(l), x, Tol)
  /\ \A x, y \in Grid : IsBound(l, r, x, Tol) /\ RLe(x, y) => IsBound(l, r, y, Tol)
  /\ \A x \in Grid : IsBound(l, r, x, Tol) \/ ~IsSharp(l, r, x, "0") \/ RLe(x, "16")
  /\ \E x \in {RAdd(RAbs(l.u), Sqrt(TRUE, A2(l)))} : IsBound(l, l, x, Tol) /\ IsSharp(l, l, x, Tol) /\ ~IsBound(l, l, RMul(x, "0.99"), "0")
=============================================================================
