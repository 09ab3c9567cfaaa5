------------------------------- MODULE Limiter -------------------------------
(* The convex limiter: bounds of a node from its stencil, and the coefficient of an update.

   P is the physics: [eq |-> "euler" | "aeos" | "sw" | "scalar", gamma, b, q, pinf, gravity, kinetic, velocity, ...].
   Bounds are sequences
      euler   <<rho_min, rho_max, s_min>>
      aeos    <<rho_min, rho_max, s_min, gamma_min>>
      sw      <<h_min, h_max, h_small, kin_max, v2_max>>
      scalar  <<u_min, u_max>>.
   A stencil is reset, accumulates the neighbours one by one, gives bounds, which are relaxed and combined;
   an update U + t P is then limited to t_min <= t <= t_max.                                                *)
EXTENDS Physics, Sequences, Integers

Head1(s, n) == SubSeq(s, 1, n)
Norm2(v) == RDot(v, v)
MomOf(P, U) == IF P.eq = "sw" THEN Tail(U) ELSE SubSeq(U, 2, Len(U) - 1)
IsGas(P) == P.eq \in {"euler", "aeos"}

(* internal energy without the reference energy and pressure: positive for admissible states *)
Covolume(P, U) == RSub("1", RMul(P.b, U[1]))
Shift(P, U) ==
  LET e == RSub(U[Len(U)], RDiv(Norm2(MomOf(P, U)), RMul("2", U[1])))
  IN RSub(RSub(e, RMul(P.q, U[1])), RMul(P.pinf, Covolume(P, U)))
(* rho^gamma (1 - b rho)^(1 - gamma): the energy Shift of a state is s times this *)
Isentrope(P, U, g, up) ==
  LET c == Covolume(P, U)
  IN IF up THEN RMul(RPowerUp(U[1], g), RPowerUp(RDiv("1", c), RSub(g, "1")))
     ELSE RMul(RPowerDown(U[1], g), RPowerDown(RDiv("1", c), RSub(g, "1")))
Entropy(P, U, g, up) == RDiv(Shift(P, U), Isentrope(P, U, g, ~up))

---------------------------------------------------------------------------
(* Stencil.  The bar state of the neighbour j, with c = c_ij / d_ij, f: flux tensors *)
Bar(Ui, fi, Uj, fj, c) ==
  [k \in 1..Len(Ui) |-> RMul("1/2", RSub(RAdd(Ui[k], Uj[k]), RDot([d \in 1..Len(c) |-> RSub(fj[k][d], fi[k][d])], c)))]
NodeFlux(P, n) ==
  IF P.eq = "aeos" THEN
    LET U == n.U  p == n.p
    IN [k \in 1..Len(U) |-> [d \in 1..Len(U) - 2 |->
          LET v == Rnd(RDiv(U[1 + d], U[1]))
          IN IF k = 1 THEN U[1 + d] ELSE IF k = Len(U) THEN RMul(v, RAdd(U[k], p))
             ELSE RAdd(RMul(U[k], v), IF k = 1 + d THEN p ELSE "0")]]
  ELSE Flux(P, n.U)

(* nodes: [U, s (precomputed entropy), p (pressure), gmin (smallest exponent of the stencil)] *)
Empty == [lo |-> <<>>, hi |-> <<>>, s |-> <<>>, kin |-> <<>>, v2 |-> <<>>]
Accumulated(P, i, a, j, c) ==
  LET bar == TLCEval(Bar(i.U, NodeFlux(P, i), j.U, NodeFlux(P, j), c))
      h == bar[1]
  IN [lo |-> Append(a.lo, h), hi |-> Append(a.hi, h),
      s |-> IF P.eq = "euler" THEN Append(a.s, <<j.s, j.s>>)
            ELSE IF P.eq = "aeos" THEN
                 a.s \o << IF P.strict THEN <<Entropy(P, j.U, i.gmin, FALSE), Entropy(P, j.U, i.gmin, TRUE)>> ELSE <<j.s, j.s>>,
                           <<Entropy(P, bar, i.gmin, FALSE), Entropy(P, bar, i.gmin, TRUE)>> >>
            ELSE <<>>,
      kin |-> IF P.eq = "sw" THEN Append(a.kin, RDiv(Norm2(Tail(bar)), RMul("2", h))) ELSE <<>>,
      v2 |-> IF P.eq = "sw" THEN Append(a.v2, RDiv(Norm2(Tail(bar)), RMul(h, h))) ELSE <<>>]
RECURSIVE Stencil(_, _, _, _)
Stencil(P, i, row, k) == IF k = 0 THEN Empty
                         ELSE Accumulated(P, i, Stencil(P, i, row, k - 1), row[k].n, row[k].c)
LowOf(s)  == RMinSeq([k \in 1..Len(s) |-> s[k][1]])
HighOf(s) == RMinSeq([k \in 1..Len(s) |-> s[k][2]])

RProduct(s) == RMul(RMul(s[1], s[2]), s[3])
Near(x, y, tol, scale) == RLe(RAbs(RSub(x, y)), RMul(tol, scale))
(* b: bounds of the accumulated stencil without relaxation *)
IsBounds(P, i, a, b, tol) ==
  LET lo == RMinSeq(a.lo)  hi == RMaxSeq(a.hi)
  IN /\ Near(b[1], lo, tol, RAbs(hi) )
     /\ Near(b[2], IF P.eq = "aeos" /\ RLt("0", P.b)
                   THEN RMin(hi, RDiv(RMul(RAdd(i.gmin, "1"), hi), RAdd(RSub(i.gmin, "1"), RProduct(<<"2", P.b, hi>>)))) ELSE hi, tol, RAbs(hi))
     /\ (IsGas(P) => RLe(RMul(LowOf(a.s), RSub("1", tol)), b[3]) /\ RLe(b[3], RMul(HighOf(a.s), RAdd("1", tol))))
     /\ (P.eq = "aeos" => b[4] = i.gmin)
     /\ (P.eq = "sw" => Near(b[4], RMaxSeq(a.kin), tol, RMaxSeq(a.kin)) /\ Near(b[5], RMaxSeq(a.v2), tol, RMaxSeq(a.v2)))

(* Relaxation widens, relatively by at most r *)
Widened(x, y, r, lower, tol) ==
  LET d == IF lower THEN RSub(x, y) ELSE RSub(y, x)       \* amount by which y is wider
      s == RMul(tol, RAbs(x))
  IN RLe(RNeg(s), d) /\ RLe(d, RAdd(RMul(r, RAbs(x)), s))
IsRelaxed(P, b, c, r, tol) ==
  /\ Widened(b[1], c[1], r, TRUE, tol)
  /\ Widened(b[2], c[2], r, FALSE, tol)
  /\ (IsGas(P) => Widened(b[3], c[3], r, TRUE, tol))
  /\ (P.eq = "aeos" => b[4] = c[4])
  /\ (P.eq = "sw" => Widened(b[4], c[4], r, FALSE, tol) /\ Widened(b[5], c[5], r, FALSE, tol) /\ RLe("0", c[3]))

(* The least bounds that contain both *)
IsCombined(P, b, c, r) ==
  LET mn(k) == REq(r[k], RMin(b[k], c[k]))  mx(k) == REq(r[k], RMax(b[k], c[k]))
  IN CASE P.eq = "euler" -> mn(1) /\ mx(2) /\ mn(3)
       [] P.eq = "aeos" -> mn(1) /\ mx(2) /\ mn(3) /\ mn(4)
       [] P.eq = "sw" -> mn(1) /\ mx(2) /\ mn(3) /\ mx(4) /\ mx(5)
       [] P.eq = "scalar" -> mn(1) /\ mx(2)

---------------------------------------------------------------------------
(* The invariant domain of the bounds; tol > 0 admits an excess, tol < 0 demands a margin, relative to the
   scales S = [rho, E, kin, v2] of the update. *)
DensityIn(b, U, tol, S) == RLe(RSub(b[1], RMul(tol, S.rho)), U[1]) /\ RLe(U[1], RAdd(b[2], RMul(tol, S.rho)))
(* the gas law of the bounds needs a density between vacuum and full packing *)
Packed(P, U) == RLt("0", U[1]) /\ RLt("0", Covolume(P, U))
EntropyIn(P, b, U, tol, S) ==
  LET g == IF P.eq = "aeos" THEN b[4] ELSE P.gamma
  IN Packed(P, U) /\ RLe(RMul(b[3], Isentrope(P, U, g, RLt(tol, "0"))), RAdd(Shift(P, U), RMul(tol, S.E)))
KineticIn(P, b, U, tol, S) == ~P.kinetic \/ RLe(RMul("1/2", Norm2(Tail(U))), RAdd(RMul(U[1], b[4]), RMul(tol, S.kin)))
VelocityIn(P, b, U, tol, S) == ~P.velocity \/ RLe(Norm2(Tail(U)), RAdd(RMul(RMul(U[1], U[1]), b[5]), RMul(tol, S.v2)))
OtherIn(P, b, U, tol, S) ==
  CASE IsGas(P) -> EntropyIn(P, b, U, tol, S)
    [] P.eq = "sw" -> KineticIn(P, b, U, tol, S) /\ VelocityIn(P, b, U, tol, S)
    [] P.eq = "scalar" -> TRUE
InDomain(P, b, U, tol, S) == DensityIn(b, U, tol, S) /\ OtherIn(P, b, U, tol, S)

At(U, D, t) == [k \in 1..Len(U) |-> RAdd(U[k], RMul(t, D[k]))]
Scales(P, b, U, D, tmax) ==
  LET m == [k \in 1..Len(U) |-> RAdd(RAbs(U[k]), RMul(tmax, RAbs(D[k])))]
      n2 == Norm2(MomOf(P, m))
  IN IF P.eq = "scalar" THEN [rho |-> RAdd(m[1], RAdd(RAbs(b[1]), RAbs(b[2])))]
     ELSE IF P.eq = "sw" THEN [rho |-> RAdd(m[1], b[2]), kin |-> RAdd(n2, RMul(m[1], b[4])), v2 |-> RAdd(n2, RMul(RMul(m[1], m[1]), b[5]))]
     ELSE [rho |-> RAdd(m[1], b[2]), E |-> RAdd(RAdd(m[Len(U)], RMul(RAbs(P.q), m[1])), P.pinf)]

(* Bounds as the limiter uses them: a depth below the dry threshold h_small may not be reached from above *)
Effective(P, b) == IF P.eq = "sw" THEN [b EXCEPT ![1] = RMax(b[1], b[3])] ELSE b

(* The coefficient t and the report ok for the bounds b, the update U + t D.
   iterations: Newton steps that were allowed; delta: width below which t need not be maximal. *)
Coefficient(P, b, U, D, tmin, tmax, t, ok, iterations, tol, delta) ==
  LET S == TLCEval(Scales(P, b, U, D, tmax))
      e == Effective(P, b)
      m == RNeg(tol)
      \* a margin is at least absolute: the bound may be zero
      M == IF P.eq = "sw" THEN [S EXCEPT !.kin = RAdd(@, "1"), !.v2 = RAdd(@, "1")] ELSE S
      start == At(U, D, tmin)
      Inside == InDomain(P, e, start, tol, S)      \* the interval starts inside
  IN /\ RLe(tmin, t) /\ RLe(t, tmax)
     /\ (InDomain(P, e, start, "0", S) => InDomain(P, e, At(U, D, t), tol, S))
     \* maximal: everything, if that is inside; with enough iterations, nothing beyond t is inside
     /\ (iterations > 0 /\ Inside /\ InDomain(P, e, At(U, D, tmax), m, M) => REq(t, tmax))
     /\ (iterations > 9 /\ Inside /\ RLt(RAdd(t, delta), tmax) => ~InDomain(P, e, At(U, D, RAdd(t, delta)), m, M))
     \* report
     /\ (~DensityIn(b, U, tol, S) => ~ok)
     /\ (iterations > 0 /\ ~(P.kinetic /\ P.velocity) /\ (IsGas(P) => Packed(P, start)) /\ ~OtherIn(P, b, start, tol, M) /\ ~OtherIn(P, b, At(U, D, t), tol, M) => ~ok)
     /\ (DensityIn(b, U, m, M) /\ InDomain(P, b, start, m, M) => ok)
=============================================================================
