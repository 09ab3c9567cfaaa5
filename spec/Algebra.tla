------------------------------- MODULE Algebra -------------------------------
(* The algebra of states: gas laws, thermodynamics, entropies, fluxes, conversions and boundary conditions,
   over dual numbers.  P: [eq |-> "euler" | "aeos" | "sw" | "scalar", gamma, gravity, L (law of the gas), poly].
   States <<rho, m.., E>>, <<h, q..>>, <<u>>. *)
EXTENDS Dual, Sequences, Integers, FiniteSets

GasDim(U) == Len(U) - 2
MomD(P, U) == IF P.eq = "sw" THEN Tail(U) ELSE IF P.eq = "scalar" THEN <<>> ELSE SubSeq(U, 2, Len(U) - 1)
Norm2D(v) == DDot(v, v)
KineticD(P, U) == DDiv(DScale("1/2", Norm2D(MomD(P, U))), U[1])
IntED(P, U) == DSub(U[Len(U)], KineticD(P, U))                    \* rho e

(* the laws of the gases: p(rho, e), T(rho, e) *)
EosP(L, rho, e) ==
  CASE L.name = "polytropic gas" -> DScale(RSub(L.gamma, "1"), DMul(rho, e))
    [] L.name = "noble abel stiffened gas" ->
         DSub(DDiv(DScale(RSub(L.gamma, "1"), DMul(rho, DSub(e, DC(L.q)))), DSub(DC("1"), DScale(L.b, rho))), DC(RMul(L.gamma, L.pinf)))
    [] L.name = "van der waals" ->
         LET a2 == DScale(L.a, DMul(rho, rho))
         IN DSub(DDiv(DScale(RSub(L.gamma, "1"), DAdd(DMul(rho, e), a2)), DSub(DC("1"), DScale(L.b, rho))), a2)
    [] L.name = "jones wilkins lee" ->
         LET x == DScale(RDiv("1", L.rho0), rho)
             term(A, Z) == DScale(A, DMul(DSub(DC("1"), DScale(RDiv(L.omega, Z), x)), DExp(DDiv(DC(RNeg(Z)), x))))
         IN DSum(<<term(L.A, L.R1), term(L.B, L.R2), DScale(L.omega, DMul(rho, DAdd(e, DC(L.e0))))>>)
EosT(L, rho, e) ==
  LET x == DScale(RDiv("1", L.rho0), rho)
      term(A, Z) == DScale(RDiv(A, RMul(Z, L.rho0)), DExp(DDiv(DC(RNeg(Z)), x)))
  IN DScale(RDiv("1", L.cv),
       CASE L.name = "polytropic gas" -> e
         [] L.name = "noble abel stiffened gas" -> DSub(DSub(e, DC(L.q)), DScale(L.pinf, DSub(DDiv(DC("1"), rho), DC(L.b))))
         [] L.name = "van der waals" -> DAdd(e, DScale(L.a, rho))
         [] L.name = "jones wilkins lee" -> DSub(DAdd(e, DC(L.e0)), DAdd(term(L.A, L.R1), term(L.B, L.R2))))
(* isentropic: c^2 = p_rho + p p_e / rho^2 *)
EosC2(L, rho, e) ==
  LET p == EosP(L, DC(rho), DC(e))[1]
  IN RAdd(EosP(L, DX(rho), DC(e))[2], RDiv(RMul(p, EosP(L, DC(rho), DX(e))[2]), RMul(rho, rho)))
(* 1/T de - p/(T rho^2) drho is a total differential *)
Gibbs(L, rho, e) ==
  LET a == DDiv(DC("1"), EosT(L, DX(rho), DC(e)))
      b == DDiv(EosP(L, DC(rho), DX(e)), DScale(RMul(rho, rho), EosT(L, DC(rho), DX(e))))
  IN <<a[2], RNeg(b[2])>>

(* the pressure of a state *)
PressureD(P, U) ==
  CASE P.eq = "euler" -> DScale(RSub(P.gamma, "1"), IntED(P, U))
    [] P.eq = "aeos" -> EosP(P.L, U[1], DDiv(IntED(P, U), U[1]))
    [] P.eq = "sw" -> DScale(RMul("1/2", P.gravity), DMul(U[1], U[1]))
    [] P.eq = "scalar" -> DC("0")
SpeedC2(P, U) ==
  CASE P.eq = "euler" -> RDiv(RMul(P.gamma, PressureD(P, DPoint(U))[1]), U[1])
    [] P.eq = "sw" -> RMul(P.gravity, U[1])

(* physical flux in direction n *)
FluxD(P, U, n) ==
  IF P.eq = "scalar" THEN <<DSum([d \in 1..Len(n) |-> DScale(n[d],
        IF P.kpp THEN (IF d = 1 THEN DSin(U[1]) ELSE DCos(U[1])) ELSE
        LET c == P.poly[d] IN DSum([k \in 1..Len(c) |-> DScale(c[k], IF k = 1 THEN U[1] ELSE IF k = 2 THEN DMul(U[1], U[1]) ELSE DMul(U[1], DMul(U[1], U[1])))]))])>>
  ELSE
  LET m == MomD(P, U)
      vn == DDiv(DSum([d \in 1..Len(n) |-> DScale(n[d], m[d])]), U[1])
      p == PressureD(P, U)
  IN [k \in 1..Len(U) |->
        IF P.eq # "sw" /\ k = Len(U) THEN DMul(vn, DAdd(U[k], p))
        ELSE LET a == DMul(vn, U[k]) IN IF k = 1 THEN a ELSE DAdd(a, DScale(n[k - 1], p))]

(* Entropies eta^x, a power of a rational function: the function and the exponent *)
HartenD(P, U) == DMul(U[1], IntED(P, U))                                      \* rho^2 e, 1/(gamma+1)
CovD(P, U) == DSub(DC("1"), DScale(P.L.b, U[1]))
ShiftD(P, U) == DSub(DSub(IntED(P, U), DScale(P.L.q, U[1])), DScale(P.L.pinf, CovD(P, U)))
(* surrogate of exponent g: ((rho shift) cov^(g-1))^(1/(g+1)); logarithmic derivative *)
SurrogateLog(P, U, g) ==
  LET a == DMul(U[1], ShiftD(P, U))  c == CovD(P, U)
  IN RDiv(RAdd(RDiv(a[2], a[1]), RMul(RSub(g, "1"), RDiv(c[2], c[1]))), RAdd(g, "1"))

(* Logarithmic derivative of the entropy `name` along U *)
EntropyLog(P, name, U) ==
  CASE name = "harten" -> LET w == HartenD(P, U) IN RDiv(w[2], RMul(w[1], RAdd(P.gamma, "1")))
    [] name = "pressure" -> LET p == PressureD(P, U) IN RDiv(p[2], RMul(p[1], P.gamma))
    [] name = "surrogate" -> SurrogateLog(P, U, P.gamma)

---------------------------------------------------------------------------
(* Conversions *)
ToPrimitive(P, U) ==
  LET V == DPoint(U)
  IN [k \in 1..Len(U) |-> IF k = 1 THEN U[1]
       ELSE IF P.eq = "euler" /\ k = Len(U) THEN PressureD(P, V)[1]
       ELSE IF P.eq = "aeos" /\ k = Len(U) THEN RDiv(IntED(P, V)[1], U[1])
       ELSE RDiv(U[k], U[1])]
FromPrimitive(P, W) ==
  [k \in 1..Len(W) |-> IF k = 1 THEN W[1]
    ELSE IF P.eq \in {"euler", "aeos"} /\ k = Len(W)
         THEN RAdd(IF P.eq = "euler" THEN RDiv(W[k], RSub(P.gamma, "1")) ELSE RMul(W[1], W[k]),
                   RMul(RMul("1/2", W[1]), Norm2D(DPoint(SubSeq(W, 2, Len(W) - 1)))[1]))
    ELSE RMul(W[1], W[k])]

---------------------------------------------------------------------------
(* Boundary conditions: U inside, n outward normal (unit up to rounding), D boundary data, Z the result;
   c: speeds of sound of U, D and Z (nonnegative, squares fixed by SpeedC2). *)
Near(x, y, mag, tol) == RLe(RAbs(RSub(x, y)), RMul(tol, mag))
SameState(A, B, tol) == \A k \in 1..Len(A) : Near(A[k], B[k], RAdd(RSumAbs(A), RSumAbs(B)), tol)
BMom(P, U) == IF P.eq = "sw" THEN Tail(U) ELSE SubSeq(U, 2, Len(U) - 1)
BRange(P, U) == IF P.eq = "sw" THEN 2..Len(U) ELSE 2..Len(U) - 1
Vn(P, U, n) == RDiv(RDot(BMom(P, U), n), U[1])
VMag(P, U) == RDiv(RSumAbs(BMom(P, U)), U[1])
Two(P) == IF P.eq = "sw" THEN "2" ELSE RDiv("2", RSub(P.gamma, "1"))
(* Z has the first invariant of A, the second of B and the entropy and tangential velocity of S *)
Characteristic(P, Z, cr, A, ca, B, cb, S, n, tol) ==
  LET k == Two(P)
      r1 == RSub(Vn(P, A, n), RMul(k, ca))  r2 == RAdd(Vn(P, B, n), RMul(k, cb))
      mag == RSum(<<VMag(P, A), VMag(P, B), VMag(P, S), RMul(k, ca), RMul(k, cb)>>)
      vs == Vn(P, S, n)  vr == RMul("1/2", RAdd(r1, r2))
  IN \* negative sound speed: the characteristics do not intersect (vacuum); nothing is specified
     RLt(RMul("1b-10", mag), RSub(r2, r1)) =>
     /\ RLt("0", Z[1])
     /\ Near(RMul(RMul("2", k), cr), RSub(r2, r1), mag, tol)
     /\ \A d \in 1..Len(n) : Near(RDiv(Z[1 + d], Z[1]), RAdd(RMul(vr, n[d]), RSub(RDiv(S[1 + d], S[1]), RMul(vs, n[d]))), mag, tol)
     /\ (P.eq = "euler" =>
           LET pr == PressureD(P, DPoint(Z))[1]  ps == PressureD(P, DPoint(S))[1]
               t(a) == RMul(a, RAdd("1", tol))
           IN \* the pressure is a difference of the recorded energy
              RLt(RDiv(Z[Len(Z)], "1000000"), pr) =>
              /\ RLe(RMul(pr, RPowerDown(S[1], P.gamma)), RMul(t(ps), RPowerUp(Z[1], P.gamma)))
              /\ RLe(RMul(ps, RPowerDown(Z[1], P.gamma)), RMul(t(pr), RPowerUp(S[1], P.gamma))))

Dynamic(P, U, n, D, Z, c, tol) ==
  LET vn == Vn(P, U, n)  eps == RMul("1b-40", RAdd(RAdd(VMag(P, U), c[1]), VMag(P, D)))
  IN \/ RLe(vn, RAdd(RNeg(c[1]), eps)) /\ SameState(Z, D, tol)
     \/ RLe(RSub(c[1], eps), vn) /\ Z = U
     \/ RLe(RSub(RNeg(c[1]), eps), vn) /\ RLe(vn, eps) /\ Characteristic(P, Z, c[3], D, c[2], U, c[1], D, n, tol)
     \/ RLe(RNeg(eps), vn) /\ RLe(vn, RAdd(c[1], eps)) /\ Characteristic(P, Z, c[3], D, c[2], U, c[1], U, n, tol)

Boundary(P, id, U, n, D, Z, c, tol) ==
  CASE id \in {"do_nothing", "periodic"} -> Z = U
    [] id = "dirichlet" -> SameState(Z, D, tol)
    [] id = "dirichlet_momentum" -> Z = [k \in 1..Len(U) |-> IF k \in BRange(P, U) THEN D[k] ELSE U[k]]
    [] id = "no_slip" -> \A k \in 1..Len(U) : IF k \in BRange(P, U) THEN REq(Z[k], "0") ELSE Z[k] = U[k]
    [] id = "slip" -> LET s == RDot(BMom(P, U), n)  M == RSumAbs(BMom(P, U))
                      IN \A k \in 1..Len(U) : IF k \in BRange(P, U) THEN Near(Z[k], RSub(U[k], RMul(s, n[k - 1])), M, tol) ELSE Z[k] = U[k]
    [] id = "dynamic" -> Dynamic(P, U, n, D, Z, c, tol)
(* the conditions that are functions *)
Imposed(P, id, U, n, D) ==
  LET s == RDot(BMom(P, U), n)
  IN [k \in 1..Len(U) |->
       CASE id = "dirichlet" \/ (id = "dirichlet_momentum" /\ k \in BRange(P, U)) -> D[k]
         [] id = "no_slip" /\ k \in BRange(P, U) -> "0"
         [] id = "slip" /\ k \in BRange(P, U) -> RSub(U[k], RMul(s, n[k - 1]))
         [] OTHER -> U[k]]

---------------------------------------------------------------------------
(* A frame: origin o and direction a (any length); y: coordinates in the frame, vectors back from the frame *)
FrameLength(a) == RMul("1/2", RAdd(RRootDown(RDot(a, a), 2, 100), RRootUp(RDot(a, a), 2, 100)))
FrameDir(a) == [k \in 1..Len(a) |-> RDiv(a[k], FrameLength(a))]
ToFrame(o, a, x) ==
  LET d == FrameDir(a)  z == [k \in 1..Len(x) |-> RSub(x[k], o[k])]
  IN IF Len(x) = 1 THEN z ELSE <<RAdd(RMul(d[1], z[1]), RMul(d[2], z[2])), RSub(RMul(d[1], z[2]), RMul(d[2], z[1]))>>
FromFrame(a, v) ==
  LET d == FrameDir(a)
  IN IF Len(v) = 1 THEN v ELSE <<RSub(RMul(d[1], v[1]), RMul(d[2], v[2])), RAdd(RMul(d[2], v[1]), RMul(d[1], v[2]))>>
(* data that is affine in density, velocity and pressure of the frame: rows <<constant, coefficients of y.., of t>> *)
Affine(P, S, x, t) ==
  LET y == ToFrame(S.origin, S.direction, x)
      W == [k \in 1..Len(S.rows) |-> RAdd(S.rows[k][1], RDot(Tail(S.rows[k]), Append(y, t)))]
      \* the last row is a pressure (polytropic gas)
      V == IF P.eq # "aeos" THEN W ELSE [W EXCEPT ![Len(W)] = RDiv(@, RMul(W[1], RSub(P.gamma, "1")))]
      Z == FromPrimitive(P, V)
      M == FromFrame(S.direction, BMom(P, Z))
  IN IF P.eq = "scalar" THEN W ELSE [k \in 1..Len(Z) |-> IF k \in BRange(P, Z) THEN M[k - 1] ELSE Z[k]]

---------------------------------------------------------------------------
(* The boundary of a box: sides 1, 2 (first coordinate), ..; ids: condition per side *)
Sides(B, x) == {k \in 1..2 * Len(x) : LET d == (k + 1) \div 2
                                      IN B.ids[k] # "periodic" /\ RLe(RAbs(RSub(x[d], IF k % 2 = 1 THEN B.lower[d] ELSE B.upper[d])), B.reach[d])}
Outward(k, dim) == [d \in 1..dim |-> IF d # (k + 1) \div 2 THEN "0" ELSE IF k % 2 = 1 THEN "-1" ELSE "1"]
(* two slip walls meet: no slip in two dimensions *)
SideId(B, x, k) == IF Len(x) = 2 /\ B.ids[k] = "slip" /\ \E l \in Sides(B, x) : l # k /\ B.ids[l] = "slip" THEN "no_slip" ELSE B.ids[k]
BoundaryMapOf(B, x, b, tol) ==       \* b: entries [id, n, x] of the node
  /\ Len(b) = Cardinality(Sides(B, x))
  /\ \A k \in Sides(B, x) : \E m \in 1..Len(b) :
       /\ b[m].id = SideId(B, x, k)
       /\ \A d \in 1..Len(x) : Near(b[m].n[d], Outward(k, Len(x))[d], "1", tol) /\ Near(b[m].x[d], x[d], "1", tol)
RECURSIVE Fold(_, _, _, _)
Fold(P, U, b, D) == IF b = <<>> THEN U ELSE Fold(P, Imposed(P, Head(b).id, U, Head(b).n, D), Tail(b), D)
(* the state Z of a node after boundary treatment of U *)
Sound(P, U) == RRootDown(RMax("0", SpeedC2(P, U)), 2, 100)
Treated(P, U, b, D, Z, tol) ==
  LET dyn == {m \in 1..Len(b) : b[m].id = "dynamic"}
      B == TLCEval(Fold(P, U, SubSeq(b, 1, Len(b) - 1), D))
  IN IF dyn = {} THEN SameState(Z, Fold(P, U, b, D), tol) /\ ((\A m \in 1..Len(b) : b[m].id \in {"do_nothing", "periodic"}) => Z = U)
     ELSE IF dyn = {Len(b)} THEN Dynamic(P, B, b[Len(b)].n, D, Z, <<Sound(P, B), Sound(P, D), Sound(P, Z)>>, tol)
     ELSE TRUE
=============================================================================
