----------------------------- MODULE MCAlgebra -----------------------------
(* A state under the transformations of the algebra: conversion to primitive variables and back, rotation, boost,
   slip and no slip wall.  Invariants: the identities between gas law, temperature, speed of sound, entropies,
   fluxes and boundary conditions. *)
EXTENDS Algebra
CONSTANT Deep
VARIABLES P, U, steps
vars == <<P, U, steps>>
Tol == "1e-15"
Eq(x, y, m) == RLe(RAbs(RSub(x, y)), RMul(Tol, RAdd(m, RAdd(RAbs(x), RAbs(y)))))
Law(n, g) == [name |-> n, gamma |-> g, a |-> "0", b |-> "0", q |-> "0", pinf |-> "0", e0 |-> "0", A |-> "1", B |-> "-1/8",
              R1 |-> "9/2", R2 |-> "3/2", omega |-> "3/4", rho0 |-> "1", cv |-> "5/2"]
Nasg == [Law("noble abel stiffened gas", "7/5") EXCEPT !.b = "1/4", !.q = "-1/2", !.pinf = "1/4"]
Laws == {Law("polytropic gas", "7/5"), Nasg, [Law("van der waals", "7/5") EXCEPT !.a = "1/2", !.b = "1/8", !.pinf = "32"],
         [Law("jones wilkins lee", "7/4") EXCEPT !.e0 = "1/2"]}
Ph(eq, L, g) == [eq |-> eq, gamma |-> g, gravity |-> "981/100", L |-> L, poly |-> <<<<"0", "1/2">>, <<"1", "-1", "1/3">>>>, kpp |-> FALSE]
Systems == {Ph("euler", Law("", g), g) : g \in IF Deep THEN {"7/5", "5/3", "2"} ELSE {"7/5"}} \cup {Ph("aeos", L, L.gamma) : L \in Laws}
           \cup {Ph("sw", Law("", "2"), "2")}
Gas(p) == p.eq \in {"euler", "aeos"}
Rhos == IF Deep THEN {"1/100", "1/3", "1", "5/2"} ELSE {"1/3", "5/2"}
Vels == {<<"0", "0">>, <<"3", "-1/2">>} \cup (IF Deep THEN {<<"-1/4", "1/4">>, <<"0", "10">>} ELSE {})
Es == IF Deep THEN {"1/10", "2", "50"} ELSE {"2"}
Unit == {<<"1", "0">>, <<"3/5", "4/5">>} \cup (IF Deep THEN {<<"-5/13", "12/13">>} ELSE {})
(* the energy of the van der Waals gas lies above its interpolation *)
Shift(p, rho) == IF p.L.name = "van der waals" THEN RDiv(p.L.pinf, rho) ELSE IF p.L.name = "noble abel stiffened gas" THEN RDiv("1/4", rho) ELSE "0"
MCInit == /\ P \in Systems /\ steps = 0
          /\ \E rho \in Rhos, v \in Vels, e \in Es :
               U = IF P.eq = "sw" THEN <<rho, RMul(rho, v[1]), RMul(rho, v[2])>>
                   ELSE <<rho, RMul(rho, v[1]), RMul(rho, v[2]), RMul(rho, RAdd(RAdd(e, Shift(P, rho)), RMul("1/2", RDot(v, v))))>>
WithMom(M) == [k \in 1..Len(U) |-> IF k \in {2, 3} THEN M[k - 1] ELSE U[k]]
Turn(n, v) == <<RSub(RMul(n[1], v[1]), RMul(n[2], v[2])), RAdd(RMul(n[2], v[1]), RMul(n[1], v[2]))>>
Mom == BMom(P, U)
Boosted(V, w) == [k \in 1..Len(V) |->
  IF k = 1 THEN V[1] ELSE IF k <= 3 THEN RAdd(V[k], RMul(V[1], w[k - 1]))
  ELSE RAdd(V[4], RAdd(RDot(<<V[2], V[3]>>, w), RMul(RMul("1/2", RDot(w, w)), V[1])))]
RoundTrip == U' = FromPrimitive(P, ToPrimitive(P, U))
Rotate == \E n \in Unit : U' = WithMom(Turn(n, Mom))
Boost == \E w \in {<<"1", "-2">>} : U' = Boosted(U, w)
Wall == \E n \in Unit : LET s == RDot(Mom, n) IN U' = WithMom([k \in 1..2 |-> RSub(Mom[k], RMul(s, n[k]))])
Stick == U' = WithMom(<<"0", "0">>)
Limit == IF Deep THEN 2 ELSE 1
MCNext == \/ /\ steps < Limit
             /\ steps' = steps + 1 /\ P' = P
             /\ (RoundTrip \/ Rotate \/ Boost \/ Wall \/ Stick)
          \/ steps = Limit /\ UNCHANGED vars
---------------------------------------------------------------------------
E1 == RDiv(IntED(P, DPoint(U))[1], U[1])
Flux(n) == Value(FluxD(P, DPoint(U), n))
Mag == RMul("1000", RSumAbs(Flux(<<"1", "0">>) \o Flux(<<"0", "1">>) \o U))
Thermodynamic ==
  /\ P.eq = "aeos" => LET g == Gibbs(P.L, U[1], E1) IN Eq(g[1], g[2], "0") /\ RLt("0", EosC2(P.L, U[1], E1)) /\ RLt("0", EosT(P.L, DC(U[1]), DC(E1))[1])
  /\ (P.eq = "aeos" /\ P.L.name = "polytropic gas") => REq(EosC2(P.L, U[1], E1), SpeedC2([P EXCEPT !.eq = "euler"], U))
EntropyPair ==
  \A n \in Unit : \A j \in 1..Len(U) :
    LET F == TLCEval(Slope(FluxD(P, DUnit(U, j), n)))       \* column j of the flux Jacobian
        vn(X) == DDiv(DSum([d \in 1..2 |-> DScale(n[d], X[1 + d])]), X[1])
        v == TLCEval(vn(DUnit(U, j)))
        pair(name) == Eq(EntropyLog(P, name, DAlong(U, F)), RAdd(v[2], RMul(v[1], EntropyLog(P, name, DUnit(U, j)))), RAdd(RAbs(v[2]), Mag))
    IN CASE P.eq = "euler" -> pair("harten") /\ pair("pressure")
         [] P.eq = "aeos" /\ P.L.name \in {"polytropic gas", "noble abel stiffened gas"} -> pair("surrogate")
         [] P.eq = "aeos" -> TRUE
         [] P.eq = "sw" -> LET eta(X) == DAdd(PressureD(P, X), KineticD(P, X))
                               q(X) == DMul(vn(X), DAdd(eta(X), PressureD(P, X)))
                           IN Eq(eta(DAlong(U, F))[2], q(DUnit(U, j))[2], Mag)
Conversion == \A k \in 1..Len(U) : REq(FromPrimitive(P, ToPrimitive(P, U))[k], U[k])
TurnState(n, V) == [k \in 1..Len(V) |-> IF k \in {2, 3} THEN Turn(n, <<V[2], V[3]>>)[k - 1] ELSE V[k]]
Rotation == \A n, t \in Unit :
  LET a == Value(FluxD(P, DPoint(TurnState(t, U)), Turn(t, n)))  b == TurnState(t, Flux(n)) IN \A k \in 1..Len(U) : Eq(a[k], b[k], Mag)
Galilei == \A n \in Unit : \A w \in {<<"1", "-2">>} :
  LET a == Value(FluxD(P, DPoint(Boosted(U, w)), n))  b == Boosted(Flux(n), w)  c == Boosted(U, w)
  IN \A k \in 1..Len(U) : Eq(a[k], RAdd(b[k], RMul(RDot(n, w), c[k])), RMul("10", Mag))
(* boundary conditions: data equal to the state change nothing; walls are projections; a wall has no mass flux *)
Conditions == \A n \in Unit :
  LET wall(V) == LET s == RDot(<<V[2], V[3]>>, n) IN [k \in 1..Len(V) |-> IF k \in {2, 3} THEN RSub(V[k], RMul(s, n[k - 1])) ELSE V[k]]
      c == <<"0", "0", "0">>
  IN /\ Boundary(P, "slip", U, n, U, wall(U), c, Tol) /\ Boundary(P, "slip", wall(U), n, U, wall(U), c, Tol)
     /\ REq(Value(FluxD(P, DPoint(wall(U)), n))[1], "0")
     /\ (P.eq # "aeos" => LET cc == RRootDown(SpeedC2(P, U), 2, 100)
                          IN Characteristic(P, U, cc, U, cc, U, cc, U, n, "1e-12") /\ Boundary(P, "dynamic", U, n, U, U, <<cc, cc, cc>>, "1e-12"))
     /\ Boundary(P, "dirichlet_momentum", U, n, U, U, c, Tol)
=============================================================================
