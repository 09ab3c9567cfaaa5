----------------------------- MODULE TraceRiemann -----------------------------
(* Wave speed estimates of the real Riemann solvers.  A trace is a list of items:
     [l, r, lam, tol, checks]      for systems: sides, estimates,
     [c, a, b, lam, tol, checks]   for the scalar equation.
   lam is a sequence of estimates for the same problem (exchanged, rotated, reflected, other implementation
   parameters), which have to agree up to "same"; "falling" ones must not increase. *)
EXTENDS Riemann, Json, IOUtils, TLC, Integers
CONSTANT Lenient   \* the finding of the failsafe pressure is accepted
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
Tr == Traces[tid]
Wants(s, c) == \E k \in 1..Len(s.checks) : s.checks[k] = c
Finite(x) == x \notin {"nan", "inf", "-inf"}
Close(x, y, e) == RLe(RAbs(RSub(x, y)), e)

(* the data of a side from a state of the solver *)
Mom(U, n) == RDot(SubSeq(U, 2, 1 + Len(n)), n)
Kin(U) == RDiv(LET m == SubSeq(U, 2, Len(U) - 1) IN RDot(m, m), RMul("2", U[1]))
EulerSide(U, n, gamma) ==
  [law |-> "gas", rho |-> U[1], u |-> RDiv(Mom(U, n), U[1]), gamma |-> gamma, omb |-> One,
   P |-> RMul(RSub(gamma, One), RSub(U[Len(U)], Kin(U)))]
(* surrogate law through the state: gamma = 1 + (p + pinf)(1 - b rho) / (rho (e - q) - pinf (1 - b rho)) *)
AeosSide(U, n, p, b, q, pinf) ==
  LET omb == RSub(One, RMul(b, U[1]))
      P == RAdd(p, pinf)
      e == RSub(RSub(RSub(U[Len(U)], Kin(U)), RMul(U[1], q)), RMul(pinf, omb))
  IN [law |-> "gas", rho |-> U[1], u |-> RDiv(Mom(U, n), U[1]), P |-> P, omb |-> omb,
      gamma |-> RAdd(One, RDiv(RMul(P, omb), e))]
WaterSide(U, n, g) ==
  [law |-> "sw", h |-> U[1], g |-> g, u |-> IF REq(U[1], "0") THEN "0" ELSE RDiv(RDot(Tail(U), n), U[1])]
Side(s, U, p, n) ==
  IF s.eq = "euler" THEN EulerSide(U, n, s.gamma)
  ELSE IF s.eq = "sw" THEN WaterSide(U, n, s.g)
  ELSE AeosSide(U, n, p, s.b, s.q, s.pinf)
GasSide(d, s) == [law |-> "gas", rho |-> d[1], u |-> d[2], P |-> RAdd(d[3], s.pinf), gamma |-> d[4], omb |-> RSub(One, RMul(s.b, d[1]))]

Bounded(s, l, r, lam) ==
  \/ IsBound(l, r, lam, s.tol)
  \/ Lenient /\ s.eq = "euler" /\ FailsafeCase(l, r) /\ AtLeast(l, r, lam, Failsafe(l, r, FALSE), s.tol)
Estimates(s, l, r) ==
  /\ \A k \in 1..Len(s.lam) : Finite(s.lam[k]) /\ RLe("0", s.lam[k])
  /\ (Wants(s, "bound") => \A k \in 1..Len(s.lam) : Bounded(s, l, r, s.lam[k]))
  /\ (Wants(s, "sharp") => IsSharp(l, r, s.lam[Len(s.lam)], s.sharp))
  /\ (Wants(s, "same") => \A k \in 2..Len(s.lam) : Close(s.lam[k], s.lam[1], Slack(l, r, s.lam[1], s.tol)))
  /\ (Wants(s, "falling") => (Lenient /\ s.eq = "euler" /\ FailsafeCase(l, r)) \/ \A k \in 2..Len(s.lam) : RLe(s.lam[k], RAdd(s.lam[k-1], Slack(l, r, s.lam[k-1], s.tol))))
(* h: differences of the sides below h are regularized *)
Scalar(s) ==
  LET Far == ~REq(s.a, s.b) /\ RLe(s.h, RAbs(RSub(s.a, s.b)))
      AtLeastSpeed(e, tol) == \A k \in 1..Len(s.lam) : RLe(RSub(e, tol), s.lam[k])
  IN
  /\ \A k \in 1..Len(s.lam) : Finite(s.lam[k]) /\ RLe("0", s.lam[k])
  /\ (Wants(s, "bound") /\ Convex(s.c, s.a, s.b) => \E e \in {ScalarSpeed(s.c, s.a, s.b)} : AtLeastSpeed(e, s.abs))
  /\ (Wants(s, "roe") /\ Far => \E e \in {RoeSpeed(s.c, s.a, s.b)} : AtLeastSpeed(e, s.rabs))
  /\ (Wants(s, "entropy") =>
        \A k \in 1..Len(s.lam) : EntropyHolds(s.c, s.a, s.b, RDiv(RAdd(s.a, s.b), "2"), s.lam[k],
                                           RAdd(RMul(s.abs, RAdd(s.h, RAbs(RSub(s.a, s.b)))), RProd(<<"2", s.lam[k], s.h>>))))
  /\ (Wants(s, "same") => \A k \in 2..Len(s.lam) : Close(s.lam[k], s.lam[1], s.abs))

Explained(s) ==
  IF s.eq = "scalar" THEN Scalar(s)
  ELSE IF s.eq = "gas" THEN \E l \in {GasSide(s.L, s)} : \E r \in {GasSide(s.R, s)} : Estimates(s, l, r)
  ELSE \E l \in {Side(s, s.L, s.pl, s.n)} : \E r \in {Side(s, s.R, s.pr, s.n)} : Estimates(s, l, r)

TraceInit == tid \in 1..Len(Traces) /\ pos = 1
TraceNext ==
  \/ /\ pos <= Len(Tr.items)
     /\ \E t \in {Tr} : Explained(t.items[pos]) = TRUE
     /\ pos' = pos + 1
     /\ UNCHANGED tid
  \/ /\ pos > Len(Tr.items)
     /\ PrintT("ACC " \o ToJson([tid |-> tid]))
     /\ UNCHANGED <<tid, pos>>
===============================================================================
